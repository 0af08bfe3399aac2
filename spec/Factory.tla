------------------------------- MODULE Factory ------------------------------
(* Which class the factory gives to a line.  It depends on the syntax and on the
   text of that line alone; the first entry of the syntax' table that applies wins. *)
EXTENDS Source, Rx

(* t begins with the words of ws (the last one may be longer in t), each followed
   by white space *)
RECURSIVE LeadsFrom(_, _, _)
LeadsFrom(t, j, ws) ==
  IF ws = <<>> THEN TRUE
  ELSE /\ StartsAt(t, j, Chars(Head(ws)))
       /\ LET e == j + Len(Head(ws)) IN
          \/ Len(ws) = 1
          \/ e <= Len(t) /\ t[e] \in WS /\ LeadsFrom(t, MinOf({m \in e..(Len(t) + 1) : m = Len(t) + 1 \/ t[m] \notin WS}), Tail(ws))
Leads(t, ws) == LeadsFrom(t, 1, ws)
Holds1(t, s) == LET p == Chars(s) IN \E j \in 1..(Len(t) - Len(p) + 1) : StartsAt(t, j, p)         \* s occurs in t
FirstWord(t) == LET w == Words(t) IN IF w = <<>> THEN "" ELSE Str(w[1])
WordsFromOne(t) == t # <<>> /\ t[1] \notin WS
(* "interface" and a name at the left margin *)
NamedIntf(t) == WordsFromOne(t) /\ Len(Words(t)) >= 2 /\ FirstWord(t) = "interface"
IntfGlobal(t) == \/ Leads(t, <<"no", "cdp", "run">>)
                 \/ \E j \in 1..(Len(t) - 31) : LeadsFrom(t, j, <<"logging", "event", "link-status", "global">>)
                 \/ Holds1(t, "spanning-tree portfast default") \/ Holds1(t, "spanning-tree portfast bpduguard default")
Route(t) == StartsAt(t, 1, Chars("ip route ")) \/ StartsAt(t, 1, Chars("ipv6 route "))
Aaa(t, a, b) == Leads(t, <<"aaa", a, b>>)

IosClass(t) ==
  LET s == LStrip(t) IN
  CASE FirstWord(t) = "interface" -> "IOSIntfLine"
    [] Route(t) -> "IOSRouteLine"
    [] Leads(t, <<"line">>) -> "IOSAccessLine"
    [] Aaa(s, "authentication", "login") -> "IOSAaaLoginAuthenticationLine"
    [] Aaa(s, "authentication", "enable") -> "IOSAaaEnableAuthenticationLine"
    [] Aaa(s, "authorization", "commands") -> "IOSAaaCommandsAuthorizationLine"
    [] Aaa(s, "authorization", "console") -> "IOSAaaConsoleAuthorizationLine"
    [] Aaa(s, "accounting", "commands") -> "IOSAaaCommandsAccountingLine"
    [] Aaa(s, "accounting", "exec") -> "IOSAaaExecAccountingLine"
    [] Aaa(t, "group", "server") -> "IOSAaaGroupServerLine"
    [] Leads(t, <<"hostname">>) -> "IOSHostnameLine"
    [] IntfGlobal(t) -> "IOSIntfGlobal"
    [] OTHER -> "IOSCfgLine"
NxosClass(t) ==
  CASE NamedIntf(t) /\ Words(t)[2][1] \in (ALPHA \cup DIGITS) -> "NXOSIntfLine"
    [] Route(t) -> "NXOSRouteLine"
    [] Leads(t, <<"line">>) -> "NXOSAccessLine"
    [] Aaa(t, "authentication", "login") -> "NXOSAaaLoginAuthenticationLine"
    [] Aaa(t, "authentication", "enable") -> "NXOSAaaEnableAuthenticationLine"
    [] Aaa(t, "authorization", "commands") -> "NXOSAaaCommandsAuthorizationLine"
    [] Aaa(LStrip(t), "authorization", "console") -> "NXOSAaaConsoleAuthorizationLine"
    [] Aaa(t, "accounting", "commands") -> "NXOSAaaCommandsAccountingLine"
    [] Aaa(t, "accounting", "exec") -> "NXOSAaaExecAccountingLine"
    [] Aaa(t, "group", "server") -> "NXOSAaaGroupServerLine"
    [] Leads(t, <<"vpc", "domain">>) -> "NXOSvPCLine"
    [] Leads(t, <<"hostname">>) -> "NXOSHostnameLine"
    [] IntfGlobal(t) -> "NXOSIntfGlobal"
    [] OTHER -> "NXOSCfgLine"
XrClass(t) == IF NamedIntf(t) THEN "IOSXRIntfLine" ELSE "IOSXRCfgLine"
AsaClass(t) ==
  CASE NamedIntf(t) -> "ASAIntfLine"
    [] StartsAt(t, 1, Chars("name ")) -> "ASAName"
    [] StartsAt(t, 1, Chars("object network ")) -> "ASAObjNetwork"
    [] StartsAt(t, 1, Chars("object service ")) -> "ASAObjService"
    [] StartsAt(t, 1, Chars("object-group network ")) -> "ASAObjGroupNetwork"
    [] StartsAt(t, 1, Chars("object-group service ")) -> "ASAObjGroupService"
    [] Leads(t, <<"mtu">>) -> "ASAIntfGlobal"
    [] Leads(t, <<"hostname">>) -> "ASAHostnameLine"
    [] StartsAt(t, 1, Chars("access-list ")) -> "ASAAclLine"
    [] OTHER -> "ASACfgLine"
ClassOf(syn, t) == CASE syn = "ios" -> IosClass(t) [] syn = "nxos" -> NxosClass(t) [] syn = "iosxr" -> XrClass(t) [] syn = "asa" -> AsaClass(t)
PlainClass(syn) == CASE syn = "ios" -> "IOSCfgLine" [] syn = "nxos" -> "NXOSCfgLine" [] syn = "iosxr" -> "IOSXRCfgLine" [] syn = "asa" -> "ASACfgLine"

(* the abbreviations of an interface: a prefix of its type, an optional blank, its number *)
IntfType(t) == LET w == Words(t)[2] s == {i \in 1..Len(w) : w[i] \notin (ALPHA \cup {"-"})} IN IF s = {} THEN w ELSE SubSeq(w, 1, MinOf(s) - 1)
IntfNumber(t) == LET w == Words(t) k == Len(IntfType(t)) IN
                 IF k < Len(w[2]) THEN SubSeq(w[2], k + 1, Len(w[2])) ELSE IF Len(w) > 2 THEN w[3] ELSE <<>>
Abbrevs(t) == LET ty == Low(IntfType(t)) nr == IntfNumber(t) IN
              {SubSeq(ty, 1, k) \o sep \o nr : k \in 1..Len(ty), sep \in {<<>>, <<" ">>}}
FindIntf(T, spec) == LET S == {i \in 1..T.n : StartsAt(T.txt[i], 1, Chars("interface ")) /\ Low(spec) \in Abbrevs(T.txt[i])} IN
                     IF S = {} THEN <<>> ELSE <<MinOf(S)>>
=============================================================================
