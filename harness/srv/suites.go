//go:build go1.25

// Package srv checks the parts of the server: wire protocol, keys, identities, store and listener.
package srv

import "github.com/unit-io/unitdb/server/zzverif/vh"

// Suites lists the checks.
func Suites() []*vh.Suite {
	return append(e2eSuites(),
		vh.New("S01", "codec", "a packet with at least two items", false, genStream, runStream, shrinkStream),
		vh.New("S02", "malformed", "a malformed stream with packets that are still read", false, genFuzz, runFuzz, shrinkFuzz),
		vh.New("S02", "together", "one of the streams has two packets or more", false, genPar, runPar, shrinkPar),
		vh.New("S03", "streams", "at least four writes", false, genConn, runConnIO, shrinkConn),
		vh.New("S09", "msglog", "a history with two kept messages, and one completed, reset or reopened", true, genLog, runLog, shrinkLog),
		vh.New("S10", "records", "a history in which messages and subscriptions were found", true, genData, runData, shrinkData),
		vh.New("S12", "listener", "a connection served by a protocol other than the first", false, genListen, runListen, shrinkListen),
		vh.New("S04", "keys", "a key tried on another topic", false, genKey, runKey, func(c KCase) (out []KCase) {
			for _, o := range vh.Chunks(c.Others) {
				d := c
				d.Others = o
				out = append(out, d)
			}
			return
		}),
		vh.New("S05", "identities", "a secondary identity", false, genID, runID, nil),
		vh.New("S06", "messageids", "an identifier in use by a resumed message was skipped", false, genMids, runMids, func(c NCase) (out []NCase) {
			for _, o := range vh.Chunks(c.Ops) {
				out = append(out, NCase{o, c.Par})
			}
			return
		}),
		vh.New("S07", "subscriptions", "a last subscription was removed", false, genStats, runStats, func(c TCase) (out []TCase) {
			for _, o := range vh.Chunks(c.Ops) {
				out = append(out, TCase{o})
			}
			return
		}),
		vh.New("S08", "ring", "a new node took some keys and left others", false, genRing, runRing, nil),
	)
}
