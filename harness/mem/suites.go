//go:build go1.25

package mem

import "github.com/unit-io/unitdb/server/zzverif/vh"

// Suites lists the checks of the in-memory store and its log.
func Suites() []*vh.Suite {
	return []*vh.Suite{
		vh.New("M01", "kv", "a history with at least three puts and a delete, a batch or an overwrite", true,
			genMem(false, []kv{{"put", 12}, {"get", 8}, {"del", 5}, {"batch", 3}, {"sleep", 6}, {"check", 2}}),
			runMem(func(in *vh.Info) bool { return in.Seen("put") >= 3 && in.Seen("del")+in.Seen("batch") > 0 }), shrinkMem),
		vh.New("M02", "kvreopen", "a history with a put and a reopening or crash", true,
			genMem(false, []kv{{"put", 12}, {"get", 2}, {"del", 5}, {"batch", 4}, {"sleep", 6}, {"reopen", 2}, {"crash", 2}, {"reset", 1}}),
			runMem(func(in *vh.Info) bool {
				return in.Seen("put")+in.Seen("batch") > 0 && in.Seen("crash")+in.Seen("reopen") > 0
			}), shrinkMem),
		vh.New("M02", "streamreopen", "a history with freed blocks and a reopening or crash", true,
			genMem(true, []kv{{"put", 12}, {"del", 5}, {"batch", 4}, {"sleep", 8}, {"free", 4}, {"reopen", 2}, {"crash", 2}}),
			runMem(func(in *vh.Info) bool { return in.Seen("freed") > 0 && in.Seen("crash")+in.Seen("reopen") > 0 }), shrinkMem),
		vh.New("M03", "stream", "a history in which a block was freed", true,
			genMem(true, []kv{{"put", 12}, {"get", 2}, {"del", 5}, {"batch", 4}, {"sleep", 8}, {"free", 4}, {"check", 1}}),
			runMem(func(in *vh.Info) bool { return in.Seen("freed") > 0 }), shrinkMem),
		vh.New("M03", "streamlives", "a history in which a block was freed and a store was opened again", true,
			genMem(true, []kv{{"put", 12}, {"get", 1}, {"del", 5}, {"batch", 4}, {"sleep", 8}, {"free", 5}, {"reopen", 2}, {"crash", 2}}),
			runMem(func(in *vh.Info) bool { return in.Seen("freed") > 0 && in.Seen("crash")+in.Seen("reopen") > 0 }), shrinkMem),
		vh.New("M04", "memconc", "at least two goroutines with three keys or more each", true, genConc, runConc, shrinkConc),
		vh.New("W01", "logs", "at least two logs were written and one was read back", true, genWal, runWal, shrinkWal),
		vh.New("W02", "damage", "a damaged log next to an undamaged one", true, genDamage, runDamage, shrinkDamage),
	}
}
