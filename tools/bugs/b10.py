BUGS = [
 dict(id="b95-regex-cache", prop="C36", needs="the same pattern asked first without, then with exactmatch",
      what="compiled search patterns are remembered without regard to exactmatch",
      edits=[("ciscoconfparse.py", '''        if not exactmatch:
            # Return objects whose text attribute matches linespec
            linespec_re = re.compile(linespec)
        elif exactmatch:
            # Return''', '''        known = CiscoConfParse.__init__.__globals__.setdefault("_PATTERNS", {})
        if linespec in known:
            linespec_re = known[linespec]
        elif not exactmatch:
            # Return objects whose text attribute matches linespec
            linespec_re = known[linespec] = re.compile(linespec)
        elif exactmatch:
            # Return''')], demo="""
p = CiscoConfParse(["ab", "a"])
assert len(p.find_objects("a")) == 2
assert len(p.find_objects("a", exactmatch=True)) == 1
"""),
 dict(id="b96-comment-cache", prop="C36", needs="the same comment text parsed under two different comment delimiters in one process",
      what="whether a line is a comment is remembered per text, without regard to the comment delimiter of the configuration",
      edits=[("ccp_abc.py", '''        delimiters = set(self.comment_delimiter)
''', '''        delimiters = set(self.comment_delimiter)
        known = BaseCfgLine.__dict__["set_comment_bool"].__globals__.setdefault("_COMMENTS", {})
        if self.text in known:
            self.is_comment = known[self.text]
            return self.is_comment
'''), ("ccp_abc.py", '''            else:
                self.is_comment = False
        return self.is_comment
''', '''            else:
                self.is_comment = False
        if len(tmp) > 0 and not tmp[0].isalnum():
            known[self.text] = self.is_comment
        return self.is_comment
''')], demo="""
p = CiscoConfParse(["# x"], comment="#")
q = CiscoConfParse(["# x"], comment="!")
assert p.objs[0].is_comment and not q.objs[0].is_comment
"""),
]
