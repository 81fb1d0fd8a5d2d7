import sys,re
for f in sys.argv[1:]:
    s=open('/repo/xcsf/'+f).read()
    s=re.sub(r'/\*.*?\*/','',s,flags=re.S); s=re.sub(r'//[^\n]*','',s); s=re.sub(r'\n\s*\n+','\n',s)
    print('=====',f); print(s)
