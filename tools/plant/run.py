import sys,importlib
m=importlib.import_module(sys.argv[1]); ids=sys.argv[2:] or list(m.bugs)
for i in ids:
    b=m.bugs[i]; m.make(i,b['prop'],b['edits'],b['needs'],b['breaks'],b['body'],b.get('imports',('texted',)),b.get('race',False))
