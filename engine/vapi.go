package main

// Intrinsics of package v, the harness interface.

import (
	"fmt"
	"go/types"
)

func (w *Worker) input(label string, width uint8) *Expr {
	v := w.newVar(width)
	w.inputs = append(w.inputs, inputRec{label, v, v})
	return v
}

func init() {
	n := natives
	p := vPath + "."
	n[p+"Byte"] = func(fr *frame, a []Value) Value { return fr.w.input(goStr(a[0]), 8) }
	n[p+"Bool"] = func(fr *frame, a []Value) Value {
		w := fr.w
		v := w.newVar(8)
		w.inputs = append(w.inputs, inputRec{goStr(a[0]), v, v})
		w.addConstraint(w.pool.Cmp(OUle, v, w.pool.Const(1, 8)))
		return w.lower(w.pool.Eq(v, w.pool.Const(1, 8)))
	}
	n[p+"Int"] = func(fr *frame, a []Value) Value {
		w := fr.w
		lo, ok1 := a[1].(int64)
		hi, ok2 := a[2].(int64)
		if !ok1 || !ok2 {
			unsup("v.Int with symbolic bounds")
		}
		if hi < lo {
			panic(pathEnd{kind: "infeasible"})
		}
		if hi-lo <= 255 {
			v := w.newVar(8)
			if hi-lo < 255 {
				w.addConstraint(w.pool.Cmp(OUle, v, w.pool.Const(uint64(hi-lo), 8)))
			}
			e := w.pool.Bin(OAdd, w.pool.Zext(v, 64), w.pool.Const(uint64(lo), 64))
			w.inputs = append(w.inputs, inputRec{goStr(a[0]), e, v})
			if hi == lo {
				return mkInt(lo)
			}
			return w.lowerInt(e, true)
		}
		v := w.newVar(64)
		w.inputs = append(w.inputs, inputRec{goStr(a[0]), v, v})
		w.addConstraint(w.pool.Cmp(OSle, w.pool.Const(uint64(lo), 64), v))
		w.addConstraint(w.pool.Cmp(OSle, v, w.pool.Const(uint64(hi), 64)))
		return v
	}
	n[p+"Int64"] = func(fr *frame, a []Value) Value { return fr.w.input(goStr(a[0]), 64) }
	n[p+"Assume"] = func(fr *frame, a []Value) Value { fr.w.assume(a[0]); return nil }
	n[p+"Assert"] = func(fr *frame, a []Value) Value {
		fr.w.frame = fr
		fr.w.assert(a[0], goStr(a[1]))
		return nil
	}
	n[p+"Fail"] = func(fr *frame, a []Value) Value {
		fr.w.frame = fr
		fr.w.assert(false, goStr(a[0]))
		return nil
	}
	n[p+"Observe"] = func(fr *frame, a []Value) Value {
		fr.w.obs = append(fr.w.obs, obsRec{goStr(a[0]), a[1]})
		return nil
	}
	n[p+"Reach"] = func(fr *frame, a []Value) Value { fr.w.reached[goStr(a[0])] = true; return nil }
	n[p+"Symbolic"] = func(fr *frame, a []Value) Value { return true }
	n[p+"Thorough"] = func(fr *frame, a []Value) Value { return fr.w.eng.opt.tier == "thorough" }
	n[p+"FreeMapOrder"] = func(fr *frame, a []Value) Value {
		fr.w.free = a[0].(bool)
		fr.w.freeLeft = 1
		if fr.w.eng.opt.tier == "thorough" {
			fr.w.freeLeft = 2
		}
		return nil
	}
	n[p+"And"] = func(fr *frame, a []Value) Value { return fr.w.and(a[0], a[1]) }
	n[p+"Or"] = func(fr *frame, a []Value) Value { return fr.w.or(a[0], a[1]) }
	n[p+"Not"] = func(fr *frame, a []Value) Value { return fr.w.not(a[0]) }
	n[p+"Concrete"] = func(fr *frame, a []Value) Value { return mkInt(fr.w.concreteInt(a[0], 64, true)) }
	n[p+"Preemptions"] = func(fr *frame, a []Value) Value { fr.w.maxPreempt = int(fr.w.concreteInt(a[0], 64, true)); return nil }
	n[p+"Timers"] = func(fr *frame, a []Value) Value { fr.w.noTimers = !a[0].(bool); return nil }
	n[p+"Fine"] = func(fr *frame, a []Value) Value { fr.w.fine = a[0].(bool); return nil }
	n[p+"untilExit"] = func(fr *frame, a []Value) Value { return untilExit(fr, a[0]) }
	n[p+"next"] = func(fr *frame, a []Value) Value { panic(unsupported{"v.next in the executor"}) }

	for k, t := range map[string]string{
		"os.ReadFile": "OsReadFile", "os.Stat": "OsStat", "os.Lstat": "OsStat", "os.Open": "OsOpen", "os.Create": "OsCreate",
		"os.OpenFile": "OsOpenFile", "os.MkdirAll": "OsMkdirAll", "os.Mkdir": "OsMkdirAll", "os.WriteFile": "OsWriteFile",
		"os.Remove": "OsRemove", "os.RemoveAll": "OsRemoveAll", "os.Getwd": "OsGetwd", "os.Chdir": "OsChdir",
		"(*os.File).Read": "FileRead", "(*os.File).Write": "FileWrite", "(*os.File).WriteString": "FileWriteString",
		"(*os.File).Close": "FileClose", "(*os.File).Name": "FileName", "(*os.File).Stat": "FileStat",
		"(*os.File).Readdirnames": "FileReaddirnames", "(*os.File).Readdir": "FileReaddir", "(*os.File).ReadDir": "FileReadDir", "(*os.File).Seek": "FileSeek", "(*os.File).ReadFrom": "FileReadFrom",
		"(*os.File).WriteTo": "FileWriteTo", "os.Rename": "OsRename", "os.MkdirTemp": "OsMkdirTemp", "os.CreateTemp": "OsCreateTemp",
		"os.Getenv": "OsGetenv", "os.LookupEnv": "OsLookupEnv", "syscall.Getenv": "OsLookupEnv", "os.Environ": "OsEnviron",
		"os.Setenv": "OsSetenv", "os.Unsetenv": "OsUnsetenv", "os.Clearenv": "OsClearenv",
		"os/exec.LookPath": "ExecLookPath", "(*os/exec.Cmd).Start": "CmdStart", "(*os/exec.Cmd).Wait": "CmdWait",
		"(*os.ProcessState).ExitCode": "ProcExitCode", "(*os.ProcessState).Success": "ProcSuccess", "(*os.ProcessState).String": "ProcString",
		"(*os.ProcessState).Exited": "ProcExited",
		"os.ReadDir": "OsReadDir", "os.Chtimes": "OsChtimes", "os.Chmod": "OsChmod", "(*os.File).Sync": "FileSync", "(*os.File).Chmod": "FileChmod",
	} {
		redirects[k] = t
	}
}

var _ = fmt.Sprint
var _ = types.Typ
