module vmon

go 1.26

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/crimist/trakx v0.0.0
	github.com/cbeuw/connutil v0.0.0-20200411215123-966bfaa51ee3
	github.com/go-torrent/bencode v0.0.0-20150403200907-4318e12a955c
	github.com/heroku/x v0.0.55
	github.com/kkyr/fig v0.3.0
	github.com/lib/pq v1.10.7
	github.com/pkg/errors v0.9.1
	go.uber.org/zap v1.23.0
	github.com/mitchellh/mapstructure v1.5.0
	github.com/pelletier/go-toml v1.9.5
	go.uber.org/atomic v1.10.0
	go.uber.org/multierr v1.8.0
	gopkg.in/check.v1 v1.0.0-20201130134442-10cb98267c6c
	gopkg.in/yaml.v2 v2.4.0
)

replace github.com/crimist/trakx => /repo
