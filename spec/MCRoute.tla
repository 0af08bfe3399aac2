------------------------------- MODULE MCRoute -------------------------------
(* Routes built clause by clause: reading the line of a route gives the route back,
   whatever the order of the options, and a further clause changes its own field only. *)
EXTENDS Route, Json
CONSTANTS Six, MaxOpts
VARIABLES r, os, line, val
vars == <<r, os, line, val>>
WordsOf(s) == LET ws == Words(Chars(s)) IN [i \in 1..Len(ws) |-> Str(ws[i])]
Start == IF Six THEN {[Empty EXCEPT !.net = "2001:db8:1::", !.len = "48", !.addr = "2001:DB8::1"], [Empty EXCEPT !.net = "::", !.len = "0", !.intf = "Tunnel0"],
                      [Empty EXCEPT !.net = "2001::", !.len = "16", !.intf = "Serial 1/0", !.addr = "FE80::1"]}
         ELSE {[Empty EXCEPT !.net = "10.1.0.0", !.len = "255.255.0.0", !.addr = "10.9.9.1"], [Empty EXCEPT !.net = "0.0.0.0", !.len = "0.0.0.0", !.intf = "Null0"],
               [Empty EXCEPT !.net = "10.1.2.3", !.len = "255.255.255.255", !.intf = "GigabitEthernet0/1", !.addr = "10.9.9.1"]}
OPTS == IF Six THEN {"name", "track", "tag", "multicast", "unicast"} ELSE {"name", "track", "tag", "permanent", "multicast"}
Put(x) == r' = x /\ os' = os /\ line' = ShowRoute(x, os) /\ val' = ReadRoute(WordsOf(line'))
PutOpt(x, o) == r' = x /\ os' = Append(os, o) /\ line' = ShowRoute(x, os') /\ val' = ReadRoute(WordsOf(line'))
Fresh(o) == o \in OPTS /\ Len(os) < MaxOpts /\ ~\E i \in 1..Len(os) : os[i] = o
Init == r \in Start /\ os = <<>> /\ line = ShowRoute(r, <<>>) /\ val = ReadRoute(WordsOf(line))
Next == \/ r.vrf = "" /\ Put([r EXCEPT !.vrf = "A"])
        \/ r.ad = 1 /\ \E n \in {5, 254} : Put([r EXCEPT !.ad = n])
        \/ ~Six /\ ~r.glob /\ r.vrf # "" /\ Put([r EXCEPT !.glob = TRUE])
        \/ ~Six /\ ~r.dhcp /\ r.addr = "" /\ Put([r EXCEPT !.dhcp = TRUE])
        \/ Six /\ r.nhvrf = "" /\ Put([r EXCEPT !.nhvrf = "B"])
        \/ Fresh("name") /\ \E n \in {"N", "track", "77"} : PutOpt([r EXCEPT !.name = n], "name")
        \/ Fresh("track") /\ PutOpt([r EXCEPT !.track = "7"], "track")
        \/ Fresh("tag") /\ PutOpt([r EXCEPT !.tag = "20"], "tag")
        \/ Fresh("permanent") /\ PutOpt([r EXCEPT !.perm = TRUE], "permanent")
        \/ Fresh("multicast") /\ ~r.ucast /\ PutOpt([r EXCEPT !.mcast = TRUE], "multicast")
        \/ Fresh("unicast") /\ ~r.mcast /\ PutOpt([r EXCEPT !.ucast = TRUE], "unicast")
Spec == Init /\ [][Next]_vars
RoundTrip == val = r
(* one step reads differently in exactly one field *)
OneField == [][Cardinality({f \in DOMAIN r : val'[f] # val[f]}) = 1]_vars
Emitted == PrintT("GEN " \o ToJson(<<line, RouteAttrs(WordsOf(line))>>))
=============================================================================
