------------------------------- MODULE Junos --------------------------------
(* Interfaces of a brace-delimited configuration: the blocks of the outermost
   "interfaces" block, and their units. *)
EXTENDS Attr, Source

LW(T, i) == LineOf(T.txt[i]).w
InterfacesBlock(T, i) == IsRoot(T, i) /\ LW(T, i) = <<"interfaces">>
Physical(T, i) == ~IsRoot(T, i) /\ InterfacesBlock(T, T.par[i])
Unit(T, i) == ~IsRoot(T, i) /\ Physical(T, T.par[i]) /\ Len(LW(T, i)) > 1 /\ LW(T, i)[1] = "unit"
JunosIntf(T, i) == Physical(T, i) \/ Unit(T, i)
OwnName(T, i) == Str(Strip(T.txt[i]))
JunosName(T, i) == IF Physical(T, i) THEN OwnName(T, i)
                   ELSE IF Unit(T, i) THEN OwnName(T, T.par[i]) \o " " \o OwnName(T, i) ELSE "~None~"
Below(T, i) == {j \in 1..T.n : i \in Anc(T, j)}
Switching(T, i) == \E j \in Below(T, i) : ~T.com[j] /\ Fits(<<"family", "ethernet-switching", "<any>">>, LW(T, j))
JunosAttrs(T, i) == <<
  <<"is_intf", JunosIntf(T, i)>>, <<"is_subintf", Unit(T, i)>>, <<"name", JunosName(T, i)>>, <<"intf_name", JunosName(T, i)>>,
  <<"is_switchport", JunosIntf(T, i) /\ Switching(T, i)>> >>
(* the lines of which that is asked: statements, not comments or closing braces *)
JunosLines(T) == {i \in 1..T.n : ~T.com[i] /\ Strip(T.txt[i]) # <<>>}
=============================================================================
