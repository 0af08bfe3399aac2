"""Names, object groups, port sets and access lists of asa configurations."""
from impl import kind, guard, edited
from ciscoconfparse import CiscoConfParse
from ciscoconfparse.ccp_util import L4Object
from impl_attr import net


def runs(v):
    out = []
    for n in v:
        if out and n == out[-1][1] + 1:
            out[-1][1] = n
        else:
            out.append([n, n])
    return out


def refused(f):
    r = guard(f)
    return "refused" if isinstance(r, dict) and "exc" in r else r


def ports(g):
    return [[p.protocol, runs(p.port_list)] for p in g.ports]


GROUP = {"ASAObjGroupNetwork": {"name": lambda o: o.name, "network_strings": lambda o: o.network_strings, "network_count": lambda o: o.network_count, "networks": lambda o: [net(x) for x in o.networks]},
         "ASAObjGroupService": {"name": lambda o: o.name, "protocol_type": lambda o: o.protocol_type, "L4Objects_are_directional": lambda o: o.L4Objects_are_directional, "ports": ports},
         "ASAName": {"name": lambda o: o.result_dict["name"] if o.result_dict["name"] == o.name else "names differ", "addr": lambda o: o.result_dict["addr"] if o.result_dict["addr"] == o.addr else "addresses differ"}}


def pairs(get, f, bad):
    try:
        return [[k, f(v)] for k, v in get().items()]
    except Exception as e:
        return [["exc:" + type(e).__name__, bad]]


@kind("asa")
def k_asa(case):
    try:
        return look(edited(case, look))
    except Exception as e:
        return {"exc": type(e).__name__}


def look(p):
    objs = list(p.objs)
    at = {id(o): i for i, o in enumerate(objs)}
    line = lambda o: at.get(id(o), -1)
    out = []
    for i, o in enumerate(objs):
        t = GROUP.get(type(o).__name__)
        if t:
            out.append({"line": i, "attrs": {n: refused(lambda: f(o)) for n, f in t.items()}})
    c = p.ConfigObjs
    return {"n": len(objs), "names": pairs(lambda: c.names, str, ""), "ogn": pairs(lambda: c.object_group_network, line, -2),
            "ogs": pairs(lambda: c.object_group_service, line, -2), "acl": pairs(lambda: c.access_list, lambda v: [line(o) for o in v], [-2]), "objs": out}


def portset(proto, spec):
    return runs(L4Object(protocol=proto, port_spec=spec, syntax="asa").port_list)


@kind("ports")
def k_ports(case):
    out = []
    for proto, spec in case["specs"]:
        r = refused(lambda: portset(proto, spec))
        if r != "refused":
            a, b = L4Object(protocol=proto, port_spec=spec, syntax="asa"), L4Object(protocol=proto, port_spec="  " + spec + " ", syntax="asa")
            other = L4Object(protocol="udp" if proto == "tcp" else "tcp", port_spec="eq 1", syntax="asa")
            r = "objects differ" if not a == b or a == other or a.protocol != proto else [r, guard(repr, a)]
        out.append(r)
    return out
