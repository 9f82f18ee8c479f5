package main

import "verif.local/v/instr"

// which programs decide a property
type plan struct {
	ctl, nat string
}

var plans = map[string]plan{
	"C01": {"hashmap", "hashmap"}, "C02": {"hashmap", "hashmap"}, "C03": {"hashmap", "hashmap"},
	"C04": {"hashmap", "hashmap"}, "C05": {"hashmap", "hashmap"}, "C06": {"hashmap", "hashmap"},
	"C07": {"cache", "cache"}, "C08": {"cache", "cache"},
	"C09": {"lock", "lock"}, "C10": {"lock", "lock"}, "C11": {"lock", ""}, "C12": {"lock", ""},
	"C13": {"gopool", ""}, "C14": {"gopool", ""},
	"C15": {"fastio", "fastio"}, "C16": {"fastio", ""},
	"C17": {"buf", "buf"}, "C18": {"buf", "buf"},
	"C19": {"mmap", "mmap"}, "C20": {"mmap", "mmap"},
	"C21": {"uuid", "uuid"},
	"C22": {"", "codec"}, "C23": {"", "codec"}, "C24": {"codec", "codec"}, "C25": {"keystore", "crypt"},
	"C26": {"keystore", "keystore"}, "C27": {"keystore", "keystore"},
	"C28": {"ws", "ws"}, "C29": {"", "http"},
	"C30": {"", "image"},
	"C31": {"sig", "sig"}, "C32": {"", "codec"},
}

const (
	gofer = "github.com/donnie4w/gofer"
	shim  = "verif.local/v/shim/"
)

var common = map[string]string{
	"sync": shim + "sync", "sync/atomic": shim + "atomic", "time": shim + "time", "context": shim + "context",
	"hash/maphash": shim + "maphash", "math/rand": shim + "mathrand", "os/signal": shim + "signal", "runtime": shim + "runtime",
	"container/list":                   gofer + "/zz/list",
	"github.com/google/btree":          gofer + "/zz/btree",
	"github.com/golang/groupcache/lru": gofer + "/zz/lru",
}

func files(m map[string]string) map[string]string {
	r := map[string]string{"os": shim + "os", "golang.org/x/exp/mmap": shim + "expmmap", "github.com/edsrzf/mmap-go": shim + "gommap",
		"golang.org/x/sys/unix": shim + "unix", "syscall": shim + "unix"}
	for k, v := range m {
		r[k] = v
	}
	return r
}

var zzList = instr.Pkg{Path: "container/list", Out: "zz/list"}
var zzBtree = instr.Pkg{Path: "github.com/google/btree", Out: "zz/btree"}
var zzLru = instr.Pkg{Path: "github.com/golang/groupcache/lru", Out: "zz/lru"}

func pk(name string) instr.Pkg { return instr.Pkg{Path: gofer + "/" + name, Out: name} }

// packages rewritten for each controlled program
func rewritten(prog string) []instr.Pkg {
	fs := func(name string) instr.Pkg { p := pk(name); p.Imports = files(nil); return p }
	uu := pk("uuid")
	uu.NoReset = true
	uu.Imports = map[string]string{"crypto/rand": shim + "cryptorand"}
	ut := fs("util")
	base := []instr.Pkg{zzList, zzBtree, zzLru, uu, ut, pk("pool/buffer"), pk("buffer"), pk("hashmap"), pk("cache"), pk("lock")}
	switch prog {
	case "hashmap", "cache", "lock":
		return base
	case "gopool":
		return append(base, pk("pool/gopool"))
	case "fastio":
		return append(base, fs("fastio"))
	case "buf":
		return []instr.Pkg{pk("pool/buffer"), pk("buffer")}
	case "mmap":
		return append(base, fs("mmap"))
	case "uuid":
		return []instr.Pkg{uu, ut}
	case "keystore":
		return append(base, fs("keystore"))
	case "codec":
		return append(base, pk("thrift"))
	case "sig":
		return append(base, pk("gosignal"))
	case "ws":
		p := pk("websocket")
		p.Imports = map[string]string{"golang.org/x/net/websocket": shim + "websocket"}
		return append(base, p)
	}
	return nil
}
