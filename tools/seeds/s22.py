ID = "renamed-link-not-registered-py"
PROPERTY = "C22"
NEEDS = "two links of the same name with auto_rename, sharing their start or their end node"
BREAKS = "the node knows the second link under the original name only, so it replaces the first one there: no vehicle can ever leave or enter through it"
EDITS = [("uxsim/uxsim.py", """        s.start_node.outlinks[s.name] = s
        s.end_node.inlinks[s.name] = s

        s.attribute = attribute
""", """        s.start_node.outlinks[name or s.name] = s
        s.end_node.inlinks[name or s.name] = s

        s.attribute = attribute
""")]
DEMO = '''
W = World(deltan=5, tmax=1200, random_seed=1, **Q)
W.addNode("a", 0, 0); W.addNode("b", 1, 0); W.addNode("c", 1, 1)
l1 = W.addLink("r", "a", "b", 1000, auto_rename=True); l2 = W.addLink("r", "a", "c", 1000, auto_rename=True)
expect(set(W.get_node("a").outlinks.values()) == {l1, l2}, W.get_node("a").outlinks)
expect(len(set(l.name for l in W.LINKS)) == 2)
W.adddemand("a", "b", 0, 300, 0.3); W.adddemand("a", "c", 0, 300, 0.3)
W.exec_simulation()
expect(all(v.state == "end" for v in W.VEHICLES.values()))
'''
