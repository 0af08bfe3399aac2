BUGS = [
 dict(id="b30-brace-in-comment", prop="C05", needs="a commented-out line that ends with an opening brace",
      what="a comment that ends with { opens a block",
      edits=[("ciscoconfparse.py", "    if isinstance(comment_match, re.Match):\n", "    if isinstance(comment_match, re.Match) and not line_txt.rstrip().endswith(\"{\"):\n")],
      demo="""
p = CiscoConfParse(["a {", "    # old {", "    b;", "}", "c;"], syntax="junos")
assert [o.indent for o in p.objs if o.text.strip() == "c"] == [0], p.ioscfg
"""),
 dict(id="b31-diff-case", prop="C15", needs="two lines that differ in letter case only",
      what="the diff takes lines that differ in letter case only for the same line",
      edits=[("ccp_abc.py", '''        _line_id = hash(" " * indent + " ".join(self.text.strip().split()))''', '''        _line_id = hash(" " * indent + " ".join(self.text.lower().split()))''')],
      demo="""
d = HDiff(["interface x", " description Foo"], ["interface x", " description foo"])
assert list(d.unified_diffs()) == [" interface x", "- description Foo", "+ description foo"], d.unified_diffs()
"""),
 dict(id="b32-sync-match", prop="C16", needs="a linespec that matches a line in its middle only",
      what="sync_diff considers only lines that begin with the linespec",
      edits=[("ciscoconfparse.py", "            if not lrgx.search(command):\n", "            if not lrgx.match(command.strip()):\n")],
      demo="""
p = CiscoConfParse(["ntp server 1.1.1.1", "logging host 1.1.1.1"])
r = p.sync_diff(["ntp server 1.1.1.1"], r"host", r".*")
assert r == ["no logging host 1.1.1.1"], r
"""),
 dict(id="b33-key-length", prop="C27", needs="a password long enough for the key to wrap around",
      what="the key wraps around one position early",
      edits=[("ciscoconfparse.py", "xlat[int(s % 53)]", "xlat[int(s % 52)]")],
      demo="""
K = "dsfd;kfoA,.iyewrkldJKDHSUBsgvca69834ncxv9873254k;fg87"
pw = "x" * 60
enc = "07" + "".join("%02x" % (ord(c) ^ ord(K[(7 + i) % 53])) for i, c in enumerate(pw))
assert CiscoPassword(enc).decrypt() == pw
"""),
 dict(id="b34-save-skips-blank", prop="C14", needs="a blank line inside a banner or kept with ignore_blank_lines=False",
      what="save_as leaves out blank lines",
      edits=[("ciscoconfparse.py", '''                    newconf.write(line + "\\n")''', '''                    if line.strip():
                        newconf.write(line + "\\n")''')],
      demo="""
import tempfile, os
p = CiscoConfParse(["banner motd ^", "a", "", "b", "^", "x"])
p = CiscoConfParse(["a", "", "b"], ignore_blank_lines=False)
fd, f = tempfile.mkstemp(); os.close(fd)
p.save_as(f)
s = open(f).read(); os.unlink(f)
assert s == "a\\n\\nb\\n", s
"""),
 dict(id="b35-blank-replacement", prop="C12", needs="a replacement that leaves only white space of an indented line",
      what="an indented line replaced by white space is left behind as an empty line",
      edits=[("ccp_abc.py", '''        if retval.strip() == "":''', '''        if retval == "":''')],
      demo="""
p = CiscoConfParse(["a", " b", "c"])
p.replace_lines("b", "")
p.commit()
assert p.ioscfg == ["a", "c"], p.ioscfg
"""),
 dict(id="b36-access-line-kinds", prop="C17", needs="a 'line tty' or numbered line",
      what="numbered and tty lines are plain lines",
      edits=[("models_cisco.py", '''        if re.search(r"^line", line):''', '''        if re.search(r"^line\\s+(?:con|vty|aux)", line):''')],
      demo="""
p = CiscoConfParse(["line 33", " login"], syntax="ios", factory=True)
assert type(p.objs[0]).__name__ == "IOSAccessLine"
"""),
 dict(id="b37-banner-close", prop="C04", needs="a banner whose closing line has text after the delimiter",
      what="a banner only ends at a line that ends with the delimiter",
      edits=[("ciscoconfparse.py", "                    elif bannerdelimit in obj.text.strip():\n", "                    elif obj.text.strip().endswith(bannerdelimit):\n")],
      demo="""
p = CiscoConfParse(["banner motd ^", "hello", "bye ^ now", "hostname x"])
assert len(p.objs[0].children) == 2, p.objs[0].children
"""),
 dict(id="b38-children-order", prop="C03", needs="a line deleted without its children, or lines whose children were collected out of order",
      what="siblings compares by indentation class instead of the exact indentation",
      edits=[("ccp_abc.py", "        return [obj for obj in self.parent.children if obj.indent == indent]\n", "        return [obj for obj in self.parent.children if bool(obj.indent) == bool(indent)]\n")],
      demo="""
p = CiscoConfParse(["a", "  b", " c"])
assert [o.text for o in p.objs[1].siblings] == ["  b"], p.objs[1].siblings
"""),
]
