ID = 'c15-nested-alias'
PROP = 'C15'
NEEDS = 'a base that is reached through two imports'
BREAKS = 'what is in the inner base cannot be referred to, so a correct document is refused'
EDITS = [
    ('lib/Parser.cpp', r"""  string result = "";
  for (auto &it : _aliasStack)
    result += it.first + "#";
  return result;""",
     r"""  string alias;
  if (!this->aliasStackPeek (&alias, nullptr))
    return "";
  return alias + "#";"""),
]
DEMO = r'''
void
run ()
{
  Demo d;
  const char *base = "<ncl><head><descriptorBase>%s</descriptorBase></head></ncl>";
  char buf[400];
  snprintf (buf, sizeof buf, base, "<importBase alias='j' documentURI='b.ncl'/>");
  d.write ("a.ncl", buf);
  snprintf (buf, sizeof buf, base, "<descriptor id='x'><descriptorParam "
            "name='color' value='v'/></descriptor>");
  d.write ("b.ncl", buf);
  CHECK (d.start ("<ncl><head><descriptorBase><importBase alias='i' "
                  "documentURI='a.ncl'/></descriptorBase></head><body>"
                  "<port id='p' component='m'/><media id='m' "
                  "descriptor='i#j#x'/></body></ncl>"));
  d.tick (0);
  CHECK (d.prop ("m", "color") == "v");
}
'''
