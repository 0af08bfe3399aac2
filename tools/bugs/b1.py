BUGS = [
 dict(id="b01-comment-resets-indent", prop="C02", needs="a comment at column 0 inside a nested block followed by lines at two indents already seen",
      what="a comment resets the indent walk, so a later line hangs below a stale parent",
      edits=[("ciscoconfparse.py", "            if (indent == 0) and is_config_line:\n", "            if indent == 0:\n")],
      demo="""
p = CiscoConfParse(["a", " b", "   c", "!", " d", "   e"])
assert p.objs[5].parent.text == " d", p.objs[5].parent.text
"""),
 dict(id="b02-file-crlf", prop="C01", needs="a file with \\r\\n line ends and a line ending in a backslash-free trailing carriage return pair, ignore_blank_lines=False",
      what="blank lines in the middle of a file are dropped although ignore_blank_lines=False",
      edits=[("ciscoconfparse.py", '''tmp_lines = self.read_config_file(filepath=config, linesplit_rgx=r"\\r*\\n")''', '''tmp_lines = self.read_config_file(filepath=config, linesplit_rgx=r"\\r*\\n(?:[ ]*\\r*\\n(?=[ ]))?")''')],
      demo="""
import tempfile, os
fd, f = tempfile.mkstemp()
os.write(fd, b"a\\n\\n b\\n"); os.close(fd)
p = CiscoConfParse(f, ignore_blank_lines=False)
os.unlink(f)
assert p.ioscfg == ["a", "", " b"], p.ioscfg
"""),
 dict(id="b03-endpoint-last-child", prop="C03", needs="a line whose last child has children of its own",
      what="family_endpoint is the last direct child instead of the last descendant",
      edits=[("ccp_abc.py", "            return self.all_children[-1].linenum", "            return self.children[-1].linenum")],
      demo="""
p = CiscoConfParse(["a", " b", "  c", "d"])
assert p.objs[0].family_endpoint == 2
"""),
 dict(id="b04-banner-telnet", prop="C04", needs="a telnet banner with an indented body or a body that looks like configuration",
      what="telnet banners are not recognised",
      edits=[("ciscoconfparse.py", '            "telnet",\n            "lcd",\n        }', '            "lcd",\n        }')],
      demo="""
p = CiscoConfParse(["banner telnet ^C", "hello", "^C", "x"])
assert [o.text for o in p.objs[0].children] == ["hello", "^C"]
"""),
 dict(id="b05-brace-comment-close", prop="C05", needs="a closing brace followed by trailing blanks",
      what="closing braces only end a block if they are the whole line",
      edits=[("ciscoconfparse.py", '''elif len(obj.text.strip()) >= 1 and obj.text.strip()[0] == "}":''', '''elif len(obj.text.strip()) == 1 and obj.text.strip()[0] == "}":''')],
      demo="""
p = CiscoConfParse(["ltm pool x {", "    a", "} else {", "    b", "}"], syntax="ios")
assert p.objs[4].parent.text == "} else {", p.objs[4].parent
p = CiscoConfParse(["x {", "    y {", "    }; ", "}"], syntax="ios")
assert p.objs[3].parent.text == "x {", p.objs[3].parent
"""),
 dict(id="b06-all-children-loose", prop="C06", needs="overlapping matches: a parent and its descendant both match",
      what="find_all_children loses the deeper descendants of a line nested in another match",
      edits=[("ciscoconfparse.py", "            allobjs.update(set(parent.all_children))\n", "            allobjs.update(set(parent.all_children) if parent.parent is parent or parent.parent not in allobjs else set(parent.children))\n            if parent.parent in parentobjs:\n                allobjs.difference_update(gg for cc in parent.children for gg in cc.all_children)\n")],
      demo="""
p = CiscoConfParse(["a", " a b", "  c", "   d"])
assert p.find_all_children("a") == ["a", " a b", "  c", "   d"], p.find_all_children("a")
"""),
 dict(id="b07-insert-indent", prop="C10", needs="append_to_family with auto_indent and a line that already carries its own indentation",
      what="auto_indent keeps the indentation the text came with",
      edits=[("ccp_abc.py", '''insertstr = (" " * (self.indent + auto_indent_width)) + insertstr.lstrip()''', '''insertstr = (" " * (self.indent + auto_indent_width)) + insertstr''')],
      demo="""
p = CiscoConfParse(["interface x", " ip address 1.1.1.1 255.0.0.0"])
p.objs[0].append_to_family("  shutdown", auto_indent=True)
assert p.ioscfg == ["interface x", " ip address 1.1.1.1 255.0.0.0", " shutdown"], p.ioscfg
"""),
 dict(id="b08-delete-lines-exact", prop="C11", needs="delete_lines with ignore_ws=True and irregular spacing",
      what="delete_lines ignores ignore_ws",
      edits=[("ciscoconfparse.py", "        objs = self.find_objects(linespec, exactmatch, ignore_ws)\n", "        objs = self.find_objects(linespec, exactmatch)\n")],
      demo="""
p = CiscoConfParse(["a  b", "c"])
p.delete_lines("a b", ignore_ws=True)
assert p.ioscfg == ["c"], p.ioscfg
"""),
 dict(id="b09-replace-exclude", prop="C12", needs="replace_children with an excludespec matching the parent",
      what="parents matching excludespec are no longer skipped",
      edits=[("ciscoconfparse.py", '''            if excludespec and excludespec_re.search(pobj.text):
                # Exclude replacements on pobj lines which match excludespec
                continue
            for cobj in pobj.children:
                if excludespec and excludespec_re''', '''            for cobj in pobj.children:
                if excludespec and excludespec_re''')],
      demo="""
p = CiscoConfParse(["int a", " x", "int b", " x"])
p.replace_children("int", "x", "y", excludespec="int b")
assert p.ioscfg == ["int a", " y", "int b", " x"], p.ioscfg
"""),
 dict(id="b10-commit-strip", prop="C13", needs="commit of a configuration in which a banner body holds an empty line",
      what="a re-parse looks for the end of a banner only in lines which are not blank",
      edits=[("ciscoconfparse.py", "        self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg, debug=self.debug)", "        self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng([ii for ii in self.ioscfg if ii != '' or self.ignore_blank_lines is False], debug=self.debug)")],
      demo="""
p = CiscoConfParse(["banner motd ^C", "", "hi", "^C", "x"], factory=True)
a = p.ioscfg
p.commit()
assert p.ioscfg == a, p.ioscfg
"""),
 dict(id="b11-save-rstrip", prop="C14", needs="a configuration whose last line is blank (ignore_blank_lines=False)",
      what="save_as drops a blank last line",
      edits=[("ciscoconfparse.py", '''                for line in self.ioscfg:
                    newconf.write(line + "\\n")''', '''                newconf.write("\\n".join(self.ioscfg).rstrip() + "\\n")''')],
      demo="""
import tempfile, os
d = tempfile.mkdtemp()
f = os.path.join(d, "x")
CiscoConfParse(["a", ""], ignore_blank_lines=False).save_as(f)
c = open(f).read()
import shutil; shutil.rmtree(d)
assert c == "a\\n\\n", c
"""),
 dict(id="b12-typed-default", prop="C09", needs="re_match_iter_typed with untyped_default and a child that matches while the parent does not",
      what="recursion stops at the first level",
      edits=[("ccp_abc.py", '''        retval = self.all_parents
        retval.append(self)
        if self.children:
            retval.extend(self.all_children)
''', '''        retval = self.all_parents
        retval.append(self)
        if self.children:
            retval.extend(self.children)
''')],
      demo="""
p = CiscoConfParse(["a", " b", "  c"])
assert [o.text for o in p.objs[0].lineage] == ["a", " b", "  c"]
"""),
]
BUGS[-1].update(id="b12-lineage-children", prop="C03", needs="lineage of a line with grandchildren", what="lineage omits grandchildren")
