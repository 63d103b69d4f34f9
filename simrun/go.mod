module simrun

go 1.24

require (
	github.com/jumptrading/influx-spout/v2 v2.0.0
	github.com/nats-io/nats.go v1.10.0
	github.com/spf13/afero v1.4.0
)

replace github.com/jumptrading/influx-spout/v2 => /repo
