-------------------------------- MODULE Route -------------------------------
(* Static routes of ios, word by word.
     ip route [vrf V] P M [I] [A] [dhcp] [global] [distance] options
     ipv6 route [vrf V] P/L (A | I [A]) [nexthop-vrf V] [distance] options
   options, in any order: name N, track N, tag N, permanent, multicast, unicast.
   The state is what has been read of the route so far. *)
EXTENDS Attr

Empty == [vrf |-> "", net |-> "", len |-> "", intf |-> "", addr |-> "", dhcp |-> FALSE, glob |-> FALSE, nhvrf |-> "", ad |-> 1,
          name |-> "", track |-> "", tag |-> "", perm |-> FALSE, mcast |-> FALSE, ucast |-> FALSE]
IsNum(s) == IsDigits(Chars(s))
HasColon(s) == Contains(Chars(s), <<":">>)
Addr6Like(s) == HasColon(s) /\ ReadV6Addr(Chars(s)).ok
Letter(s) == Chars(s)[1] \notin DIGITS
(* a word that begins with a digit and holds a slash continues an interface name ("Serial 1/0") *)
Slot_(s) == Chars(s)[1] \in DIGITS /\ Contains(Chars(s), <<"/">>)
OPTWORDS == {"name", "track", "tag", "permanent", "multicast", "unicast"}
At(w, k) == IF k <= Len(w) THEN w[k] ELSE ""
RECURSIVE Options(_, _, _)
Options(r, w, k) ==
  IF k > Len(w) THEN r
  ELSE CASE w[k] = "name" /\ k < Len(w) -> Options([r EXCEPT !.name = w[k + 1]], w, k + 2)
         [] w[k] = "track" /\ k < Len(w) -> Options([r EXCEPT !.track = w[k + 1]], w, k + 2)
         [] w[k] = "tag" /\ k < Len(w) -> Options([r EXCEPT !.tag = w[k + 1]], w, k + 2)
         [] w[k] = "permanent" -> Options([r EXCEPT !.perm = TRUE], w, k + 1)
         [] w[k] = "multicast" -> Options([r EXCEPT !.mcast = TRUE], w, k + 1)
         [] w[k] = "unicast" -> Options([r EXCEPT !.ucast = TRUE], w, k + 1)
         [] OTHER -> r
Distance(r, w, k) == IF k <= Len(w) /\ IsNum(w[k]) THEN Options([r EXCEPT !.ad = NatOf(Chars(w[k]))], w, k + 1) ELSE Options(r, w, k)
Global4(r, w, k) == IF At(w, k) = "global" THEN Distance([r EXCEPT !.glob = TRUE], w, k + 1) ELSE Distance(r, w, k)
Dhcp4(r, w, k) == IF At(w, k) = "dhcp" THEN Global4([r EXCEPT !.dhcp = TRUE], w, k + 1) ELSE Global4(r, w, k)
Addr4_(r, w, k) == IF k <= Len(w) /\ IsQuad(w[k]) THEN Dhcp4([r EXCEPT !.addr = w[k]], w, k + 1) ELSE Dhcp4(r, w, k)
NhVrf(r, w, k) == IF At(w, k) = "nexthop-vrf" THEN Distance([r EXCEPT !.nhvrf = w[k + 1]], w, k + 2) ELSE Distance(r, w, k)
Addr6_(r, w, k) == IF k <= Len(w) /\ Addr6Like(w[k]) THEN NhVrf([r EXCEPT !.addr = w[k]], w, k + 1) ELSE NhVrf(r, w, k)
Intf_(r, w, k) == IF k + 1 <= Len(w) /\ Slot_(w[k + 1]) THEN <<[r EXCEPT !.intf = w[k] \o " " \o w[k + 1]], k + 2>>
                  ELSE <<[r EXCEPT !.intf = w[k]], k + 1>>
NextHop4(r, w, k) == IF k <= Len(w) /\ Letter(w[k]) THEN LET x == Intf_(r, w, k) IN Addr4_(x[1], w, x[2]) ELSE Addr4_(r, w, k)
NextHop6(r, w, k) == IF Addr6Like(w[k]) THEN NhVrf([r EXCEPT !.addr = w[k]], w, k + 1)
                     ELSE LET x == Intf_(r, w, k) IN Addr6_(x[1], w, x[2])
Dest4(r, w, k) == NextHop4([r EXCEPT !.net = w[k], !.len = w[k + 1]], w, k + 2)
Dest6(r, w, k) == NextHop6([r EXCEPT !.net = SlashPart(w[k], 1), !.len = SlashPart(w[k], 2)], w, k + 1)
ReadRoute(w) == \* w: the words of the line
  LET six == w[1] = "ipv6"
      v == w[3] = "vrf"
      r == IF v THEN [Empty EXCEPT !.vrf = w[4]] ELSE Empty
      k == IF v THEN 5 ELSE 3
  IN IF six THEN Dest6(r, w, k) ELSE Dest4(r, w, k)
(* the line a route stands for, options in the order given *)
Opt(r, o) == CASE o = "name" -> IF r.name = "" THEN "" ELSE " name " \o r.name
               [] o = "track" -> IF r.track = "" THEN "" ELSE " track " \o r.track
               [] o = "tag" -> IF r.tag = "" THEN "" ELSE " tag " \o r.tag
               [] o = "permanent" -> IF r.perm THEN " permanent" ELSE ""
               [] o = "multicast" -> IF r.mcast THEN " multicast" ELSE ""
               [] o = "unicast" -> IF r.ucast THEN " unicast" ELSE ""
RECURSIVE Opts_(_, _)
Opts_(r, os) == IF os = <<>> THEN "" ELSE Opt(r, Head(os)) \o Opts_(r, Tail(os))
Sp(s) == IF s = "" THEN "" ELSE " " \o s
ShowRoute(r, os) ==
  LET six == HasColon(r.net) IN
  (IF six THEN "ipv6 route" ELSE "ip route") \o (IF r.vrf = "" THEN "" ELSE " vrf " \o r.vrf)
  \o " " \o r.net \o (IF six THEN "/" ELSE " ") \o r.len \o Sp(r.intf) \o Sp(r.addr)
  \o (IF r.dhcp THEN " dhcp" ELSE "") \o (IF r.glob THEN " global" ELSE "") \o (IF r.nhvrf = "" THEN "" ELSE " nexthop-vrf " \o r.nhvrf)
  \o (IF r.ad = 1 THEN "" ELSE " " \o ToString(r.ad)) \o Opts_(r, os)

NextHopText(r) == IF r.intf = "" THEN r.addr ELSE IF r.addr = "" THEN r.intf ELSE r.intf \o " " \o r.addr
RouteAttrs(w) ==
  LET r == ReadRoute(w)
      six == w[1] = "ipv6"
      a == IF six THEN ReadV6(Chars(r.net \o "/" \o r.len)) ELSE ReadV4(Chars(r.net \o " " \o r.len))
  IN << <<"address_family", w[1]>>,
        <<"vrf", r.vrf>>, <<"network", r.net>>,
        <<"netmask", IF six THEN ShowV6(IP!Netmask(16, a.p)) ELSE r.len>>,
        <<"masklen", a.p>>,
        <<"network_object", IF six THEN ShowNet6(a) ELSE ShowNet4(a)>>,
        <<"next_hop_interface", r.intf>>, <<"next_hop_addr", r.addr>>, <<"nexthop_str", NextHopText(r)>>,
        <<"admin_distance", r.ad>>, <<"multicast", r.mcast>>, <<"route_name", r.name>>,
        <<"tracking_object_name", r.track>>, <<"tag", r.tag>> >>
     \o (IF six THEN << <<"nexthop_vrf", r.nhvrf>> >>
         ELSE << <<"permanent", r.perm>>, <<"global_next_hop", IF r.vrf = "" THEN TRUE ELSE r.glob>> >>)
=============================================================================
