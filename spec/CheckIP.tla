------------------------------ MODULE CheckIP -------------------------------
(* IP address objects recorded from the implementation: construction from every
   notation, the facts they report, the effect of assignments and arithmetic,
   comparisons, sorting and summarisation. *)
EXTENDS IPText, Judge
VARIABLES c, done

NB(v) == IF v = 4 THEN 4 ELSE 16
Read(q) == IF q.k = "none" THEN BAD_
           ELSE IF q.k = "int" THEN
               LET d == DecBytes(Chars(q.s), NB(q.v)) IN IF (q.neg /\ d.v # IP!Zero(NB(q.v))) \/ d.over THEN BAD_ ELSE Good(d.v, 8 * NB(q.v))
           ELSE IF q.v = 4 THEN ReadV4(Chars(q.s)) ELSE ReadV6(Chars(q.s))
Show(a) == IF Len(a) = 4 THEN ShowV4(a) ELSE ShowV6(a)
Cidr(a, p) == Show(a) \o "/" \o ToString(p)
CidrO(o) == Cidr(o.a, o.p)
Within(a, p, net, n) == p >= n /\ IP!Network(a, n) = net
NetIs(a, p, s4) == LET r == IF Len(a) = 4 THEN ReadV4(Chars(s4)) ELSE ReadV6(Chars(s4)) IN Within(a, p, r.a, r.p)
RESERVED6 == {"::/8", "100::/8", "200::/7", "400::/6", "800::/5", "1000::/4", "4000::/3", "6000::/3", "8000::/3",
              "a000::/3", "c000::/3", "e000::/4", "f000::/5", "f800::/6", "fe00::/9"}
Priv(a, p) == \* "yes", "no", or "?" where the registries differ between library versions
  LET yes == IF Len(a) = 4 THEN {"10.0.0.0/8", "172.16.0.0/12", "192.168.0.0/16", "127.0.0.0/8", "169.254.0.0/16"}
             ELSE {"fc00::/7", "fe80::/10", "2001:db8::/32"}
      no == IF Len(a) = 4 THEN {"8.0.0.0/7", "11.0.0.0/8", "64.0.0.0/10", "128.0.0.0/3", "224.0.0.0/4", "172.32.0.0/11"}
            ELSE {"2600::/12", "2a00::/12", "ff00::/16"}
  IN IF \E s \in yes : NetIs(a, p, s) THEN "yes"
     ELSE IF p >= 8 /\ \E s \in no : NetIs(a, p, s) /\ ~NetIs(a, p, "192.168.0.0/16") THEN "no" ELSE "?"

Common(o) ==
  LET a == o.a  p == o.p  n == Len(a)  net == IP!Net(o)  last == IP!Last(a, p) IN
  [ip |-> Show(a), netmask |-> Show(IP!Netmask(n, p)), masklen |-> p, masklength |-> p, prefixlen |-> p, prefixlength |-> p,
   packed |-> a, network |-> Cidr(net, p), hostmask |-> Show(IP!Hostmask(n, p)), inverse_netmask |-> Show(IP!Hostmask(n, p)),
   version |-> IF n = 4 THEN 4 ELSE 6, numhosts |-> Dec(IP!NumHosts(n, p)), as_decimal |-> Dec(a), as_int |-> Dec(a), int |-> Dec(a),
   as_decimal_network |-> Dec(net), network_offset |-> Dec(IP!HostBits(a, p)), max_int |-> Dec(IP!Ones(n)),
   as_hex |-> HexAll(a), as_cidr_addr |-> Cidr(a, p), as_cidr_net |-> Cidr(net, p),
   first |-> Show(net), iterated |-> IF p >= 8 * n - 3
               THEN [i \in 1..(2 ^ (8 * n - p)) |-> Show(IP!Plus(net, [j \in 1..n |-> IF j = n THEN i - 1 ELSE 0]))] ELSE <<>>]
Facts4(o) ==
  LET a == o.a  p == o.p  net == IP!Net(o) IN
  [ipv4 |-> Show(a), exploded |-> Show(a), broadcast |-> Show(IP!Last(a, p)), as_decimal_broadcast |-> Dec(IP!Last(a, p)),
   as_zeropadded |-> Padded(a), as_zeropadded_network |-> Padded(net) \o "/" \o ToString(p),
   as_binary_tuple |-> [i \in 1..4 |-> BinByte(a[i])], as_hex_tuple |-> [i \in 1..4 |-> HexByte(a[i])],
   is_multicast |-> Within(a, p, <<224, 0, 0, 0>>, 4), is_reserved |-> Within(a, p, <<240, 0, 0, 0>>, 4),
   repr |-> "<IPv4Obj " \o Cidr(a, p) \o ">"]
Mapped(a) == IP!Network(a, 96) = [i \in 1..16 |-> IF i \in {11, 12} THEN 255 ELSE 0]
Facts6(o) ==
  LET a == o.a  p == o.p  net == IP!Net(o) IN
  [ipv6 |-> Show(a), exploded |-> LongV6(a), compressed |-> Cidr(net, p), as_decimal_network_maxint |-> Dec(IP!Last(a, p)),
   as_binary_tuple |-> [i \in 1..8 |-> BinByte(a[2 * i - 1]) \o BinByte(a[2 * i])], as_hex_tuple |-> [i \in 1..8 |-> Hex4(G(a, i))],
   is_multicast |-> NetIs(a, p, "ff00::/8"), is_link_local |-> NetIs(a, p, "fe80::/10"), is_site_local |-> NetIs(a, p, "fec0::/10"),
   is_unspecified |-> (p = 128 /\ a = IP!Zero(16)),
   is_reserved |-> (\E s \in RESERVED6 : NetIs(net, 128, s)) /\ (\E s \in RESERVED6 : NetIs(IP!Last(a, p), 128, s)),
   is_ipv4_mapped |-> Mapped(a),
   teredo |-> IF NetIs(a, 128, "2001::/32") THEN <<ShowV4(SubSeq(a, 5, 8)), ShowV4([i \in 1..4 |-> 255 - a[12 + i]])>> ELSE <<>>,
   sixtofour |-> IF NetIs(a, 128, "2002::/16") THEN <<ShowV4(SubSeq(a, 3, 6))>> ELSE <<>>,
   repr |-> "<IPv6Obj " \o (IF Mapped(a) THEN "::ffff:" \o ShowV4(SubSeq(a, 13, 16)) ELSE Show(a)) \o "/" \o ToString(p) \o ">"]

EXC == "~exception~"
(* clause per fact, so a report says which one is wrong *)
RECURSIVE EqFacts(_, _, _)
EqFacts(names, e, o) ==
  IF names = {} THEN <<>>
  ELSE LET f == CHOOSE x \in names : TRUE IN
       (IF f \in DOMAIN o THEN Eq("fact-" \o f, e[f], o[f]) ELSE Holds("fact-" \o f, FALSE, EXC)) \o EqFacts(names \ {f}, e, o)
JudgeFacts(o, obs, back) ==
  LET cm == Common(o)  sp == IF Len(o.a) = 4 THEN Facts4(o) ELSE Facts6(o) IN
  EqFacts(DOMAIN cm, cm, obs) \o EqFacts(DOMAIN sp, sp, obs)
  \o (IF Priv(o.a, o.p) = "yes" THEN Eq("fact-is_private", TRUE, obs.is_private)
      ELSE IF Priv(o.a, o.p) = "no" THEN Eq("fact-is_private", FALSE, obs.is_private) ELSE <<>>)
  \o Eq("string-forms-parse-back", <<TRUE, TRUE, TRUE, TRUE>>, <<back.addr, back.repr, back.hash, back.copy>>)

Num(op, n) == DecBytes(Chars(op.n), n)
(* one operation: the object afterwards (result object for + and -) *)
Apply(o, op) ==
  LET n == Len(o.a)  d == Num(op, n) IN
  CASE op.op = "plus" -> IF d.over THEN [ok |-> FALSE, o |-> o] ELSE IP!Shift(o, op.neg, d.v)
    [] op.op = "minus" -> IF d.over THEN [ok |-> FALSE, o |-> o] ELSE IP!Shift(o, ~op.neg, d.v)
    [] op.op = "offset" -> IF d.over THEN [ok |-> FALSE, o |-> o] ELSE IP!SetOffset(o, op.neg, d.v)
    [] op.op \in {"prefixlen", "masklen", "masklength", "prefixlength"} ->
         IF op.neg \/ PrefixNum(Chars(op.n), 8 * n) < 0 THEN [ok |-> FALSE, o |-> o]
         ELSE IP!SetPrefix(o, PrefixNum(Chars(op.n), 8 * n))
RECURSIVE Final(_, _, _)
Final(o, ops, k) == IF k > Len(ops) THEN o ELSE Final(Apply(o, ops[k]).o, ops, k + 1)
RECURSIVE JudgeOps(_, _, _, _)
JudgeOps(o, ops, obs, k) ==
  IF k > Len(ops) THEN <<>>
  ELSE LET r == Apply(o, ops[k]) IN
       Eq("after-" \o ops[k].op, IF r.ok THEN <<CidrO(r.o), Cidr(IP!Net(r.o), r.o.p), TRUE>> ELSE <<EXC, "", TRUE>>, <<obs[k].r, obs[k].net, obs[k].kept>>)
       \o JudgeOps(r.o, ops, obs, k + 1)

JudgeIp(q) ==
  LET o == Read(q.x) IN
  IF ~o.ok THEN Eq("rejected", EXC, q.obs.exc)
  ELSE IF q.obs.exc # "" THEN Holds("accepted", FALSE, q.obs)
  ELSE JudgeFacts([a |-> o.a, p |-> o.p], q.obs.facts, q.obs.back) \o JudgeOps([a |-> o.a, p |-> o.p], q.ops, q.obs.ops, 1)
       \o JudgeFacts(Final([a |-> o.a, p |-> o.p], q.ops, 1), q.obs.final, q.obs.finalback)

JudgePair(q) ==
  LET x == Read(q.x)  y == Read(q.y) IN
  IF Len(x.a) # Len(y.a) THEN Eq("different-families", <<FALSE, TRUE>>, <<q.obs.eq, q.obs.ne>>)
  ELSE LET e == x = y IN
       Eq("relations", <<"eq", e, "ne", ~e, "lt", IP!Before(x, y), "gt", IP!Before(y, x), "x in y", IP!Contains_(y, x), "y in x", IP!Contains_(x, y)>>,
          <<"eq", q.obs.eq, "ne", q.obs.ne, "lt", q.obs.lt, "gt", q.obs.gt, "x in y", q.obs.xiny, "y in x", q.obs.yinx>>)
       \o Holds("equal-objects-hash-equal", e => q.obs.hash, q.obs)

Nets(xs) == {LET o == Read(xs[i]) IN [a |-> IP!Net(o), p |-> o.p] : i \in 1..Len(xs)}
JudgeCollapse(q) == LET r == IP!Collapse(Nets(q.xs)) IN Eq("collapse_addresses", [i \in 1..Len(r) |-> CidrO(r[i])], q.obs)
JudgeSort(q) ==
  LET os == [i \in 1..Len(q.xs) |-> LET o == Read(q.xs[i]) IN [a |-> o.a, p |-> o.p]]
      s == IP!SortObjs(os)
      e == [i \in 1..Len(s) |-> CidrO(s[i])]
  IN Eq("sorted", <<e, Rev(e)>>, <<q.obs.asc, q.obs.desc>>)

(* ip_factory: the right class for the text, by notation or forced *)
JudgeFactory(q) ==
  LET v == IF q.mode = "ipv4" THEN 4 ELSE IF q.mode = "ipv6" THEN 6
           ELSE IF \E i \in 1..Len(q.s) : SubSeq(q.s, i, i) = ":" THEN 6 ELSE 4
      o == IF v = 4 THEN ReadV4(Chars(q.s)) ELSE ReadV6(Chars(q.s))
      full == o.p = (IF v = 4 THEN 32 ELSE 128)
      cls == IF q.stdlib THEN (IF full THEN "Address" ELSE "Network") ELSE "Obj"
      txt == IF q.stdlib THEN (IF full THEN Show(o.a) ELSE Cidr(IP!Network(o.a, o.p), o.p)) ELSE Cidr(o.a, o.p)
  IN Eq("ip_factory", IF o.ok THEN <<"IPv" \o ToString(v) \o cls, txt>> ELSE <<EXC, "">>, <<q.obs.cls, q.obs.txt>>)

JudgeCase(q) == CASE q.kind = "ip" -> JudgeIp(q) [] q.kind = "ippair" -> JudgePair(q) [] q.kind = "ipcollapse" -> JudgeCollapse(q)
                  [] q.kind = "ipsort" -> JudgeSort(q) [] q.kind = "ipfactory" -> JudgeFactory(q)
Init == c \in 1..NCases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Report(c, 1, JudgeCase(Cases[c]))
=============================================================================
