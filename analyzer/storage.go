package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// storageOps are the calls through which the store reaches files, the log and memory blocks.
var fileOps = map[string]bool{
	"os.File.WriteAt": true, "os.File.Write": true, "os.File.ReadAt": true, "os.File.Read": true, "os.File.Sync": true,
	"os.File.Truncate": true, "os.File.Close": true, "os.File.Seek": true, "os.OpenFile": true, "os.Rename": true, "os.Remove": true, "os.Mkdir": true, "os.MkdirAll": true, "os.Open": true, "os.Create": true,
	"bufio.Writer.Write": true, "bufio.Writer.Flush": true, "io.ReadFull": true,
}

var bufOps = map[string]bool{
	"github.com/unit-io/bpool.Buffer.Extend": true, "github.com/unit-io/bpool.Buffer.Slice": true, "github.com/unit-io/bpool.Buffer.Write": true,
	"github.com/unit-io/bpool.Buffer.WriteAt": true, "github.com/unit-io/bpool.Buffer.ReadAt": true, "github.com/unit-io/bpool.Buffer.Truncate": true,
}

var memOps = map[string]bool{
	"memdb.DB.Put": true, "memdb.DB.Get": true, "memdb.DB.Lookup": true, "memdb.DB.Delete": true, "memdb.DB.Free": true, "memdb.DB.Close": true,
	"memdb.Batch.Put": true, "memdb.Batch.Write": true, "memdb.Batch.Commit": true, "memdb.Batch.Abort": true, "memdb.Open": true,
}

// calleeIn: is the instruction a call to one of the sets.
func calleeIn(sets ...map[string]bool) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n := staticName(ci.Common())
		for _, s := range sets {
			if s[n] {
				return true
			}
		}
		return false
	}
}

func shortOp(n string) string { return n[strings.LastIndex(n, "/")+1:] }
