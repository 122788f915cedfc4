import subprocess,shutil,os,sys,re
src=open('/repo/rtree.go').read()
M=[
("omt child.parent","			child.parent = n\n\n","\n"),
("omt1 child.parent","			child.parent = n\n			return n","			return n"),
("3index","objs[(i-1)*k : i*k : i*k]","objs[(i-1)*k : i*k]"),
("vert","vertSize = nSlices * k","vertSize = nSlices"),
("cond<","if len(n.entries) < tree.MinChildren {\n			// remove","if len(n.entries) <= tree.MinChildren {\n			// remove"),
("condlevel","tree.insert(e, n.level+1)","tree.insert(e, n.level)"),
("condbb","			n.getEntry().bb = n.computeBoundingBox()\n","			_ = n.getEntry()\n"),
("cond>0","if len(n.entries) > 0 {\n				deleted","if len(n.entries) > 1 {\n				deleted"),
("split bb","	en.bb = n.computeBoundingBox()\n","	_ = en\n"),
("size del","	tree.size--\n",""),
("height","	tree.height = tree.root.level\n",""),
("rootchild",") == 1 {\n		tree.root",") <= 2 {\n		tree.root"),
("oldroot parent","		oldRoot.parent = tree.root\n",""),
("minDist","	} else if p.Y > r.MaxY {\n		d := p.Y - r.MaxY","	} else if p.Y > r.MaxY {\n		d := p.Y - r.MinY"),
("prune","if minDists[i] > d {","if minDists[i] >= d {"),
("prune l","branches = pruneEntriesMinDist(dists[l-1], branches, branchDists)","branches = pruneEntriesMinDist(dists[0], branches, branchDists)"),
("insN","for i < len(nearest) && dist >= dists[i]","for i < len(nearest)-1 && dist >= dists[i]"),
("insK","	if i >= k {","	if i > k {"),
("swapd","	s.dists[i], s.dists[j] = s.dists[j], s.dists[i]\n",""),
("nn k","	if l := len(dists); l >= k {","	if l := len(dists); l >= k-1 {"),
("buf","nearest, b[len(n.entries):], bd","nearest, b, bd"),
("upsert","		tree.DeleteBySpatialID(object.ID)\n",""),
("delid","	for _, sp := range sps {\n		tree","	for _, sp := range sps[:1] {\n		tree"),
("delcond","return object[0].ID == object[1].ID","return len(object[0].ID) == len(object[1].ID)"),
("findleaf cont","			if leaf == nil {\n				continue","			if leaf == nil {\n				return nil"),
("findleaf contain","if e.bb.Contain(BoundingBox(obj.Geom)) {","if e.bb.Contain(BoundingBox(obj.Geom)) || false {"),
("search","if !e.bb.Intersect(bb) {\n			continue","if !e.bb.Intersect(bb) {\n			break"),
("searchcond","	if cond != nil {\n			if","	if cond == nil {\n			if"),
("assign","		e.child.parent = group\n","		_ = group\n"),
("new","	if len(objs) <= rt.MaxChildren {","	if len(objs) < rt.MaxChildren {"),
("bulk size","	tree.size = n\n",""),
("split right parent","		rightSeed.child.parent = right\n","		_ = right\n"),
("split min","if len(remaining)+len(left.entries) <= minGroupSize {","if len(remaining)+len(left.entries) < minGroupSize {"),
("split swapped","			assign(e, right)\n		} else {","			assign(e, left)\n		} else {"),
("split level","		level:   n.level,\n		entries: []entry{rightSeed}","		entries: []entry{rightSeed}"),
("split rem","	remaining = append(remaining, n.entries[r+1:]...)\n",""),
("newids","	for i, v := range objs {\n		sps = append(sps, Spatial{fmt.Sprintf(\"%d_0_%d\", rid, i), nil, v})","	for _, v := range objs {\n		sps = append(sps, Spatial{fmt.Sprintf(\"%d_0_%d\", rid, 0), nil, v})"),
("randins","	tree.insert(e, 1)\n	tree.size++\n}\n\n// insert adds","	tree.insert(e, 1)\n}\n\n// insert adds"),
("bulk sort","	sortByDim(0, entries)\n","	sortByDim(0, entries[1:])\n"),
("enn","	n.parent.entries = append(n.parent.entries, enn)\n\n","	_ = enn\n"),
("choose","		if d < diff ||","		if d > diff ||"),
("pickseeds","left, right = i, j+i+1","left, right = i, j+1"),
]
rx=sys.argv[1:] 
for name,a,b in M:
    if rx and name not in rx: continue
    assert src.count(a)>=1,(name,src.count(a))
    d='/tmp/mutw'; shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('.git'))
    open(d+'/rtree.go','w').write(src.replace(a,b,1))
    e=dict(os.environ,GEO_REPO=d,GEO_SPEC='/verif/spec')
    c=subprocess.run(['go','build','./...'],cwd=d,env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off'),capture_output=True,text=True)
    if c.returncode: print(name,'NOBUILD',c.stderr[:200]); continue
    r=subprocess.run(['timeout','100','/tmp/gv','rules','P25','P26','P27','P28'],capture_output=True,text=True,errors="replace",env=e).stdout
    v=[l for l in r.splitlines() if l.startswith(('violated','undecided'))]
    print(name.ljust(20),[ (l.split()[0][:3],l.split()[1],l.split()[2].split(':')[1]) for l in v])
shutil.rmtree('/tmp/mutw',ignore_errors=True)
