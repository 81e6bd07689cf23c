T='''"""{doc}"""
import dyn

FAMS = {fams}
SMALL = {small}


def run(ctx):
    dyn.standard(ctx, "{pid}", FAMS, SMALL)
'''
def fam(*extra, topo=None):
    return extra
P={
"C01":("Conservation and life cycle",[("py",60,{}),("cpp",90,{}),("py",25,dict(exact=False)),("cpp",35,dict(exact=False)),("py",20,dict(topo=["deadend","parallel","merge"])),("cpp",25,dict(topo=["deadend","parallel","merge"]))],["merge","spill","diverge","deadend","ring"]),
"C02":("FIFO, spacing, speed",[("py",40,{}),("cpp",60,{}),("py",30,dict(focus="spill",topo=["line","line","merge"])),("cpp",40,dict(focus="spill",topo=["line","line","merge"])),("py",30,dict(topo=["merge","line","parallel"],focus="caps")),("cpp",40,dict(topo=["merge","line","parallel"],focus="caps")),("py",20,dict(exact=False)),("cpp",30,dict(exact=False))],["merge","spill","diverge","ring"]),
"C03":("Newell car following",[("py",60,{}),("cpp",80,{}),("py",50,dict(exact=False)),("cpp",60,dict(exact=False)),],["merge","spill","signal","ring"]),
"C04":("Capacities",[("py",60,dict(topo=["line","merge","cross","ring","tworoute","diverge"],focus="caps")),("cpp",80,dict(topo=["line","merge","cross","ring","tworoute","diverge"],focus="caps")),("py",30,dict(focus="nodecap")),("cpp",40,dict(focus="nodecap")),("py",20,dict(exact=False,focus="caps")),("cpp",30,dict(exact=False,focus="caps"))],["merge","spill","diverge"]),
"C05":("Spill-back and origin queues",[("py",60,dict(focus="caps",topo=["line","ring","merge","grid"])),("cpp",80,dict(focus="caps",topo=["line","ring","merge","grid"])),("py",40,dict(focus="spill",topo=["line","line","merge"])),("cpp",50,dict(focus="spill",topo=["line","line","merge"])),("py",20,dict(exact=False,focus="spill",topo=["line"])),("cpp",25,dict(exact=False,focus="spill",topo=["line"])),("py",15,{}),("cpp",20,{})],["spill","merge","ring"]),
"C06":("Signals",[("py",60,dict(topo=["cross","merge","grid","ring"])),("cpp",80,dict(topo=["cross","merge","grid","ring"])),("py",20,dict(topo=["cross"],events=True)),("cpp",30,dict(topo=["cross"],events=True)),("py",25,dict(exact=False,topo=["cross"])),("cpp",30,dict(exact=False,topo=["cross"]))],["signal","merge"]),
"C07":("Work conservation, merge priority",[("py",70,dict(topo=["merge","merge","cross","ring","grid"])),("cpp",90,dict(topo=["merge","merge","cross","ring","grid"])),("py",30,dict(topo=["merge"],focus="nodecap")),("cpp",40,dict(topo=["merge"],focus="caps")),("py",15,dict(exact=False,topo=["merge"])),("cpp",25,dict(exact=False,topo=["merge"]))],["merge","signal","diverge","ring"]),
"C08":("Routes and trip end",[("py",70,dict(focus="routes",topo=["grid","tworoute","rand","deadend","parallel"])),("cpp",90,dict(focus="routes",topo=["grid","tworoute","rand","deadend","parallel"])),("py",40,dict(focus="wander",topo=["grid","rand","cross","ring","deadend"])),("cpp",50,dict(focus="wander",topo=["grid","rand","cross","ring","deadend"])),("py",15,{}),("cpp",20,{}),("py",15,dict(exact=False)),("cpp",25,dict(exact=False))],["routes","deadend","diverge"]),
"C09":("Route choice",[("py",70,dict(topo=["tworoute","grid","rand"])),("cpp",90,dict(topo=["tworoute","grid","rand"])),("py",20,{}),("cpp",30,{}),("py",20,dict(exact=False,topo=["tworoute","grid"])),("cpp",30,dict(exact=False,topo=["tworoute","grid"]))],["routes","diverge"]),
"C10":("Recorded times, logs and curves",[("py",60,{}),("cpp",90,{}),("py",40,dict(exact=False)),("cpp",60,dict(exact=False))]+[(e,n,dict(logint=k)) for k in (2,3,7,-1) for e,n in (("py",8),)]+[("cpp",12,dict(logint=-1))],["merge","routes","deadend"]),
}
for pid,(d,f,s) in P.items():
    fs="[\n"+"".join("    %r,\n"%(x,) for x in f)+"]"
    open("/verif/harness/props/%s.py"%pid,"w").write(T.format(doc=d,fams=fs,small=repr(s),pid=pid))
