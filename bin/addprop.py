import sys
p='/verif/bin/props.py'; s=open(p).read().rstrip(); assert s.endswith('}')
open(p,'w').write(s[:-1]+'    '+sys.argv[1]+'\n}\n')
