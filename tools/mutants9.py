T="pipelines/stagedpipe/stagedpipe.go"; TS="pipelines/stagedpipe/stats.go"
M=[
("ingest-min","T08",T,"	setMin(&p.stats.ingestStats.min, int64(queuedTime))\n",""),
("ingest-max","T08",T,"	setMax(&p.stats.ingestStats.max, int64(queuedTime))\n",""),
("ingest-avg","T08",T,"	p.stats.ingestStats.avgTotal.Add(int64(queuedTime))\n",""),
("ingest-min-is-max","T08",TS,"loadMin(&i.min)","loadMin(&i.max)"),
("run-from-queue","T08",T,"	runTime := time.Since(r.ingestTime)\n","	runTime := time.Since(r.queueTime)\n"),
("queue-after-send","T08",T,"	req.queueTime = time.Now()\n","	req.queueTime = time.Now().Add(-time.Second)\n"),
]
M+=[
("dag-no-ptr","T04",T,"[]reflect.Type{t, reflect.PointerTo(t)}","[]reflect.Type{t}"),
("dag-no-val","T04",T,"[]reflect.Type{t, reflect.PointerTo(t)}","[]reflect.Type{reflect.PointerTo(t)}"),
("dag-named-field","T04",T,"f := t.Field(i); f.Anonymous {","f := t.Field(i); true {"),
]
