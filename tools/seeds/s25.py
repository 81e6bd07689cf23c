ID = "merge-forgets-rename-osm-py"
PROPERTY = "C24"
NEEDS = "enforce_bidirectional with a map whose two directions of a street have different attributes, where the opposite direction already exists"
BREAKS = "the reverse link made for a link replaces the street's own opposite direction (name, lanes and speed lost)"
EDITS = [("uxsim/OSMImporter/OSMImporter.py", """                    if (end_node, start_node) not in new_links:
                        new_links""", """                    if (end_node, start_node) not in new_links or new_links[end_node, start_node][3] < lanes:
                        new_links""")]
DEMO = '''
import warnings; warnings.simplefilter("ignore")
from uxsim.OSMImporter.OSMImporter import OSMImporter
nodes = [[1, 0, 0], [2, 10, 0], [3, 20, 0]]
links = [["up", 1, 2, 3, 20.0], ["down", 2, 1, 1, 10.0], ["on", 2, 3, 2, 15.0]]
n, l = OSMImporter.osm_network_postprocessing(nodes, links, 0.5, node_merge_iteration=1, enforce_bidirectional=True)
got = {(x[1], x[2]): (x[0], x[3], x[4]) for x in l}
expect(got[2, 1] == ("down", 1, 10.0), got)
expect(got[3, 2] == ("on-reverse", 2, 15.0), got)
'''
