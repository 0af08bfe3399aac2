-------------------------------- MODULE Lines -------------------------------
(* What the remaining IOS and NX-OS lines say: hostname, console and vty lines,
   global interface switches, AAA method lists, accounting and server groups.
   L are the lines below the line, w its own words, nx: the NX-OS models. *)
EXTENDS Attr

KindOf(w) ==
  IF w = <<>> THEN ""
  ELSE IF w[1] = "hostname" THEN "Hostname"
  ELSE IF w[1] = "line" THEN "Access"
  ELSE IF \/ Fits(<<"no", "cdp", "run", "<any>">>, w) \/ Fits(<<"logging", "event", "link-status", "global", "<any>">>, w)
          \/ Fits(<<"spanning-tree", "portfast", "default", "<any>">>, w) \/ Fits(<<"spanning-tree", "portfast", "bpduguard", "default", "<any>">>, w) THEN "Global"
  ELSE IF w[1] # "aaa" \/ Len(w) < 4 THEN ""
  ELSE CASE w[2] = "group" /\ w[3] = "server" -> "AaaGroup"
         [] w[2] = "authentication" /\ w[3] = "login" -> "AaaLogin"
         [] w[2] = "authentication" /\ w[3] = "enable" -> "AaaEnable"
         [] w[2] = "authorization" /\ w[3] = "commands" -> "AaaCommands"
         [] w[2] = "authorization" /\ w[3] = "console" -> "AaaConsole"
         [] w[2] = "accounting" /\ w[3] = "commands" -> "AcctCommands"
         [] w[2] = "accounting" /\ w[3] = "exec" -> "AcctExec"
         [] OTHER -> ""

NumAt(s) == NatOf(Chars(s))
IsNum(s) == IsDigits(Chars(s))
HasDigit(s) == \E i \in 1..Len(s) : IsDigits(Chars(SubSeq(s, i, i)))
From(w, k) == SubSeq(w, k, Len(w))

(* line con 0, line vty 0 4, line 33: the numbers at the end, at most two *)
RangeOf(w) == LET n == Len(w) IN
              IF n < 2 \/ ~IsNum(w[n]) THEN <<>>
              ELSE IF n > 2 /\ IsNum(w[n - 1]) THEN <<NumAt(w[n - 1]), NumAt(w[n])>> ELSE <<NumAt(w[n])>>
EXECT == <<<<"exec-timeout", "#">>, <<"exec-timeout", "#", "#">>>>
ExecT(L) == IF ~Has(EXECT, L) THEN <<>> ELSE LET l == L[MinOf(Hits(EXECT, L))] IN [i \in 1..(Len(l.w) - 1) |-> NumAt(l.w[i + 1])]
AccessAttrs(w, L) ==
  LET e == ExecT(L) IN
  << <<"is_accessline", Len(w) > 1>>, <<"name", IF Len(w) < 2 \/ HasDigit(w[2]) THEN "" ELSE w[2]>>, <<"line_range", RangeOf(w)>>, <<"parse_exectimeout", e>> >>
  \o IF e = <<>> THEN <<>> ELSE << <<"exec_minutes", e[1]>>, <<"exec_seconds", IF Len(e) = 2 THEN e[2] ELSE 0>> >>

GlobalAttrs(w, nx) ==
  << <<"has_cdp_disabled", w[1] = "no">>, <<"has_intf_logging_def", w[1] = "logging">>,
     <<"has_stp_portfast_bpduguard_def", w[1] = "spanning-tree" /\ w[3] = "bpduguard">>, <<"has_stp_mode_rapidpvst", FALSE>> >>
  \o IF nx THEN <<>> ELSE << <<"has_stp_portfast_def", w[1] = "spanning-tree" /\ w[3] = "default">> >>

(* [group G] method ... from word k on *)
Methods(w, k) == IF k + 1 <= Len(w) /\ w[k] = "group" THEN << <<"group", w[k + 1]>>, <<"methods", From(w, k + 2)>> >>
                 ELSE << <<"group", "">>, <<"methods", From(w, k)>> >>
(* none | stop-only | start-stop [broadcast] [group G] ... from word k on *)
Records(w, k) ==
  LET g == IF Len(w) > k /\ w[k + 1] = "broadcast" THEN k + 2 ELSE k + 1 IN
  << <<"record_type", w[k]>>, <<"group", IF g + 1 <= Len(w) /\ w[g] = "group" THEN w[g + 1] ELSE "">> >>

SERVER_TABLE == <<
  <<"vrf", "str", <<<<"ip", "vrf", "forwarding", "*">>, <<"vrf", "forwarding", "*">>>>, <<4, 3>>, "">>,
  <<"source_interface", "str", <<<<"ip", "tacacs", "source-interface", "<rest>">>>>, <<4>>, "">>
>>
NXSERVER_TABLE == <<
  <<"vrf", "str", <<<<"use-vrf", "*">>>>, <<2>>, "">>,
  <<"source_interface", "str", <<<<"source-interface", "<rest>">>>>, <<2>>, "">>
>>
PRIV == <<"server-private", "*", "<any>">>
GroupAttrs(w, L, nx) == << <<"protocol", w[4]>>, <<"group", w[5]>>, <<"server_private", {L[i].w[2] : i \in {k \in 1..Len(L) : Fits(PRIV, L[k].w)}}>> >> \o Table(IF nx THEN NXSERVER_TABLE ELSE SERVER_TABLE, L)

LineAttrs(w, L, nx) ==
  << <<"kind", KindOf(w)>> >> \o
  CASE KindOf(w) = "Hostname" -> << <<"hostname", w[2]>> >>
    [] KindOf(w) = "Access" -> AccessAttrs(w, L)
    [] KindOf(w) = "Global" -> GlobalAttrs(w, nx)
    [] KindOf(w) = "AaaGroup" -> GroupAttrs(w, L, nx)
    [] KindOf(w) \in {"AaaLogin", "AaaEnable"} -> << <<"list_name", w[4]>> >> \o Methods(w, 5)
    [] KindOf(w) \in {"AaaCommands", "AaaConsole"} -> << <<"level", NumAt(w[4])>>, <<"list_name", w[5]>> >> \o Methods(w, 6)
    [] KindOf(w) = "AcctCommands" -> << <<"level", NumAt(w[4])>>, <<"list_name", w[5]>> >> \o Records(w, 6)
    [] KindOf(w) = "AcctExec" -> << <<"list_name", w[4]>> >> \o Records(w, 5)
    [] OTHER -> <<>>
=============================================================================
