# mut.sh file 'python replace expr old' new  ; runs v.py on mutated copy
rm -rf /tmp/mrepo; cp -a /repo /tmp/mrepo
python3 - "$1" "$2" "$3" <<'P'
import sys
p='/tmp/mrepo/xcsf/'+sys.argv[1]; s=open(p).read(); assert sys.argv[2] in s; open(p,'w').write(s.replace(sys.argv[2],sys.argv[3],1))
P
shift 3
DV_REPO=/tmp/mrepo timeout 200 python3-vt /tmp/v.py "$@"
rm -rf /tmp/mrepo
