ID = "lanes-of-oneway-list-py"
PROPERTY = "C24"
NEEDS = "a two-way road whose number of lanes is odd and not one, imported by OSMImporter2"
BREAKS = "both directions of a two-way road with an odd number of lanes get one lane too many together"
EDITS = [("uxsim/OSMImporter2/OSMImporter2.py", """            lanes = int(lanes/2)
            if lanes <= 0:
                lanes = 1
""", """            lanes = int((lanes+1)/2)
""")]
DEMO = '''
import warnings; warnings.simplefilter("ignore")
import networkx as nx, osmnx as ox
from uxsim.OSMImporter2 import OSMImporter2
G = nx.MultiDiGraph(crs="epsg:32654")
for k, (x, y) in enumerate([(300000, 3900000), (301000, 3900000), (302000, 3900000)]):
    G.add_node(k+1, x=x, y=y)
G.add_edge(1, 2, osmid=1, oneway=False, highway="primary", name="odd", lanes="3", maxspeed="50", length=1000.0)
G.add_edge(2, 3, osmid=2, oneway=True, highway="primary", name="one", lanes="3", maxspeed="50", length=1000.0)
ox.graph.graph_from_bbox = lambda *a, **k: G
W = World(deltan=5, tmax=1200, random_seed=1, **Q)
OSMImporter2.osm_network_to_World(W, bbox=[0, 0, 1, 1], simplification=False, kwargs_dict_for_osmnx_project_graph=dict(to_crs="epsg:32654"))
lanes = {l.name: l.number_of_lanes for l in W.LINKS}
expect(lanes == {"odd": 1, "odd-reverse": 1, "one": 3}, lanes)
'''
