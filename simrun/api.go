package main

import (
	"fmt"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/downsampler"
	"github.com/jumptrading/influx-spout/v2/filter"
	"github.com/jumptrading/influx-spout/v2/listener"
	"github.com/jumptrading/influx-spout/v2/monitor"
	"github.com/jumptrading/influx-spout/v2/writer"
)

// apiMain runs a component through its Start and Stop functions, as the
// repository's own tests and any embedding program do.
func (w *World) apiMain(in *Inst) {
	hook := func(what string) {
		if in.spec.onAPI != nil {
			in.spec.onAPI(in, what)
		}
	}
	c, err := config.NewConfigFromFile(in.spec.confPath())
	if in.spec.onConf != nil {
		in.spec.onConf(in, c, err)
	}
	if err != nil {
		in.apiErr = err
		in.apiStart = w.Now()
		hook("started")
		return
	}
	var st interface{ Stop() }
	switch c.Mode {
	case "listener":
		var x *listener.Listener
		if x, err = listener.StartListener(c); err == nil {
			st = x
		}
	case "listener_http":
		var x *listener.Listener
		if x, err = listener.StartHTTPListener(c); err == nil {
			st = x
		}
	case "filter":
		var x *filter.Filter
		if x, err = filter.StartFilter(c); err == nil {
			st = x
		}
	case "downsampler":
		var x *downsampler.Downsampler
		if x, err = downsampler.StartDownsampler(c); err == nil {
			st = x
		}
	case "writer":
		var x *writer.Writer
		if x, err = writer.StartWriter(c); err == nil {
			st = x
		}
	case "monitor":
		var x *monitor.Monitor
		if x, err = monitor.Start(c); err == nil {
			st = x
		}
	default:
		err = fmt.Errorf("unknown mode %q", c.Mode)
	}
	in.apiErr = err
	in.apiStart = w.Now()
	w.Log("%s start returned: %v", in.name(), err)
	hook("started")
	if err != nil {
		return
	}
	in.stopper = st
	switch d := in.spec.stopAfter; {
	case d > 0:
		t := time.NewTimer(time.Duration(d))
		select {
		case <-in.stopReq:
		case <-t.C:
		}
		t.Stop()
	case d < 0:
		<-in.stopReq
	}
	in.apiCall = w.Now()
	w.Log("%s stop called", in.name())
	hook("stop")
	st.Stop()
	in.apiStop = w.Now()
	w.Log("%s stop returned", in.name())
	hook("stopped")
}
