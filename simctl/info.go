package main

type propertyInfo struct {
	rule        string
	real, stubs []string
	assumptions []string
}

var commonStubs = []string{
	"NATS server (in-memory broker speaking the client protocol)",
	"InfluxDB (HTTP stub with scripted behaviour)",
	"kernel network (in-memory TCP and UDP with latency, segmentation, buffers, resets, partitions)",
	"clock and timers (virtual)", "goroutine scheduler choices (seeded)", "runtime and crypto randomness (seeded)",
	"file system (in-memory, with faults)",
}

var commonAssumptions = []string{
	"Go memory model effects weaker than interleaving of statements (store buffering, torn words) are not modelled",
	"code outside /repo's packages (nats.go, net/http, toml, standard library) runs for real but is only preempted where it blocks",
	"the broker stub keeps messages for slow clients without limit and never drops any",
}

var propInfo = map[string]propertyInfo{}

func init() {
	real := func(names ...string) []string {
		return append(names, "config, batch, batchsplitter, influx, convert, stats, prometheus, probes packages", "nats.go client", "net/http")
	}
	for i := 1; i <= 27; i++ {
		id := "C" + string(rune('0'+i/10)) + string(rune('0'+i%10))
		propInfo[id] = propertyInfo{real: real("cmd/influx-spout and all components it starts"), stubs: commonStubs, assumptions: commonAssumptions}
	}
}
