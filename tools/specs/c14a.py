ID = 'c14-import-cycle'
PROP = 'C14'
NEEDS = 'documents that import one another in a circle of two or more'
BREAKS = 'the document is not refused: it is read again and again until the engine dies'
EDITS = [
    ('lib/Parser.cpp', r"""  for (auto &it : _aliasStack)
    if (it.second == path)
      return false;
""",
     r"""  if (!_aliasStack.empty () && _aliasStack.back ().second == path)
    return false;
"""),
]
DEMO = r'''
void
run ()
{
  Demo d;
  const char *lib = "<ncl><head><regionBase><region id='r'/><importBase "
                    "alias='i' documentURI='%s'/></regionBase></head></ncl>";
  char buf[300];
  snprintf (buf, sizeof buf, lib, "b.ncl");
  d.write ("a.ncl", buf);
  snprintf (buf, sizeof buf, lib, "a.ncl");
  d.write ("b.ncl", buf);
  CHECK (!d.start ("<ncl><head><regionBase><importBase alias='i' "
                   "documentURI='a.ncl'/></regionBase></head><body/></ncl>"));
  CHECK (d.f->getState () == GINGA_STATE_STOPPED);
}
'''
