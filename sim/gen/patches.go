package main

type stdFile struct {
	file  string
	edits []edit
}

// files added to standard packages: target, source under sim/std
var stdNew = [][2]string{
	{"runtime/zsim.go", "runtime_sim.go.txt"},
	{"time/zsim.go", "time_sim.go.txt"},
	{"sync/zsim.go", "sync_sim.go.txt"},
	{"os/zsim.go", "os_sim.go.txt"},
	{"net/zsim.go", "net_sim.go.txt"},
	{"os/exec/zsim.go", "exec_sim.go.txt"},
	{"os/signal/zsim.go", "signal_sim.go.txt"},
}

func after(old, new string) edit { return edit{old, new, true} }
func repl(old, new string) edit  { return edit{old, new, false} }

var stdPatches = []stdFile{
	{"runtime/runtime2.go", []edit{
		after("\tvalgrindStackID uintptr\n", "\n\tsimid, simrand, simkids, simquiet uint64\n"),
	}},
	{"runtime/proc.go", []edit{
		after("\tnewg.parentGoid = callergp.goid\n", "\tsimNewG(newg, callergp)\n"),
		after("func ready(gp *g, traceskip int, next bool) {\n", "\tif gp.simid != 0 {\n\t\tsimWoken++\n\t}\n"),
		after("func retake(now int64) uint32 {\n", "\tif simNoRetake {\n\t\treturn 0\n\t}\n"),
	}},
	{"runtime/rand.go", []edit{
		repl("	if len(startupRand) >= 16 &&\n", "	if len(startupRand) >= 0 {\n		*seed = [32]byte{7, 7, 7}\n	} else if len(startupRand) >= 16 &&\n"),
		repl("	mp := getg().m\n	c := &mp.chacha8\n", "	if x, ok := simRand(); ok {\n		return x\n	}\n	mp := getg().m\n	c := &mp.chacha8\n"),
	}},
	{"runtime/select.go", []edit{
		repl("cheaprandn(uint32(norder + 1))", "simSelectRandn(uint32(norder + 1))"),
	}},
	{"runtime/race_amd64.s", []edit{
		// accesses made by the simulator itself are none of the system's
		repl("	MOVQ	g_racectx(R14), RARG0	// goroutine context\n	// Check that addr", "	CMPQ	g_simquiet(R14), $0\n	JNE	ret\n	MOVQ	g_racectx(R14), RARG0	// goroutine context\n	// Check that addr"),
	}},
	{"time/sleep.go", []edit{
		repl("return newTimer(when(d), 0, goFunc, f, nil)", "return newTimer(when(d), 0, goFunc, simWrap(f), nil)"),
	}},
	{"sync/mutex.go", []edit{
		repl("func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n	if simOn() {\n		simMutexLock(m)\n		return\n	}\n"),
		repl("func (m *Mutex) Unlock() {\n	m.mu.Unlock()\n", "func (m *Mutex) Unlock() {\n	m.mu.Unlock()\n	simWake(unsafe.Pointer(m))\n"),
		repl("	isync \"internal/sync\"\n", "	isync \"internal/sync\"\n	\"unsafe\"\n"),
	}},
	{"sync/rwmutex.go", []edit{
		repl("		runtime_SemacquireRWMutexR(&rw.readerSem, false, 0)\n", "		simSemacquireR(&rw.readerSem)\n"),
		repl("		runtime_Semrelease(&rw.writerSem, false, 1)\n", "		simSemrelease(&rw.writerSem, 1)\n"),
		repl("		runtime_SemacquireRWMutex(&rw.writerSem, false, 0)\n", "		simSemacquireW(&rw.writerSem)\n"),
		repl("		runtime_Semrelease(&rw.readerSem, false, 0)\n", "		simSemrelease(&rw.readerSem, 0)\n"),
	}},
	{"os/stat_unix.go", []edit{
		repl("	var fs fileStat\n	err := f.pfd.Fstat(&fs.sys)\n", "	if e := simPath(\"fstat\", f.name, \"\", 0); e != nil {\n		return nil, &PathError{Op: \"stat\", Path: f.name, Err: e}\n	}\n	var fs fileStat\n	err := f.pfd.Fstat(&fs.sys)\n"),
		repl("func statNolog(name string) (FileInfo, error) {\n", "func statNolog(name string) (FileInfo, error) {\n	if e := simPath(\"stat\", name, \"\", 0); e != nil {\n		return nil, &PathError{Op: \"stat\", Path: name, Err: e}\n	}\n"),
		repl("func lstatNolog(name string) (FileInfo, error) {\n", "func lstatNolog(name string) (FileInfo, error) {\n	if e := simPath(\"lstat\", name, \"\", 0); e != nil {\n		return nil, &PathError{Op: \"lstat\", Path: name, Err: e}\n	}\n"),
	}},
	{"os/file_unix.go", []edit{
		repl("func openFileNolog(name string, flag int, perm FileMode) (*File, error) {\n", "func openFileNolog(name string, flag int, perm FileMode) (*File, error) {\n	if e := simPath(\"open\", name, \"\", flag); e != nil {\n		return nil, &PathError{Op: \"open\", Path: name, Err: e}\n	}\n"),
		repl("	f := newFile(r, name, kindOpenFile, unix.HasNonblockFlag(flag))\n	f.pfd.SysFile = s\n", "	f := newFile(r, name, kindOpenFile, unix.HasNonblockFlag(flag))\n	f.pfd.SysFile = s\n	simOpened(f, flag)\n"),
		repl("func openDirNolog(name string) (*File, error) {\n", "func openDirNolog(name string) (*File, error) {\n	if e := simPath(\"opendir\", name, \"\", 0); e != nil {\n		return nil, &PathError{Op: \"open\", Path: name, Err: e}\n	}\n"),
		repl("	f := newFile(r, name, kindNoPoll, false)\n	f.pfd.SysFile = s\n", "	f := newFile(r, name, kindNoPoll, false)\n	f.pfd.SysFile = s\n	simOpened(f, 0)\n"),
		repl("	if info := file.dirinfo.Swap(nil); info != nil {\n		info.close()\n	}\n	var err error\n	if e := file.pfd.Close(); e != nil {\n", "	if info := file.dirinfo.Swap(nil); info != nil {\n		info.close()\n	}\n	simErr := simClosePre(file)\n	var err error\n	e0 := file.pfd.Close()\n	if e0 == nil && simErr != nil {\n		e0 = simErr\n	}\n	if e := e0; e != nil {\n"),
		repl("func rename(oldname, newname string) error {\n", "func rename(oldname, newname string) error {\n	if e := simPath(\"rename\", oldname, newname, 0); e != nil {\n		return &LinkError{\"rename\", oldname, newname, e}\n	}\n"),
		repl("func Remove(name string) error {\n", "func Remove(name string) error {\n	if e := simPath(\"remove\", name, \"\", 0); e != nil {\n		return &PathError{Op: \"remove\", Path: name, Err: e}\n	}\n"),
		repl("func Truncate(name string, size int64) error {\n", "func Truncate(name string, size int64) error {\n	if e := simPath(\"truncate\", name, \"\", 0); e != nil {\n		return &PathError{Op: \"truncate\", Path: name, Err: e}\n	}\n"),
		repl("func Link(oldname, newname string) error {\n", "func Link(oldname, newname string) error {\n	if e := simPath(\"link\", oldname, newname, 0); e != nil {\n		return &LinkError{\"link\", oldname, newname, e}\n	}\n"),
		repl("func Symlink(oldname, newname string) error {\n", "func Symlink(oldname, newname string) error {\n	if e := simPath(\"symlink\", oldname, newname, 0); e != nil {\n		return &LinkError{\"symlink\", oldname, newname, e}\n	}\n"),
	}},
	{"os/file_posix.go", []edit{
		repl("	n, err = f.pfd.Read(b)\n", "	if b2, e, ok := simRead(f, b); ok {\n		if e != nil {\n			return 0, e\n		}\n		b = b2\n	}\n	n, err = f.pfd.Read(b)\n	simReadDone(f, n, err)\n"),
		repl("	n, err = f.pfd.Pread(b, off)\n", "	if b2, e, ok := simRead(f, b); ok {\n		if e != nil {\n			return 0, e\n		}\n		b = b2\n	}\n	n, err = f.pfd.Pread(b, off)\n"),
		repl("	n, err = f.pfd.Write(b)\n", "	if b2, e, n2, ok := simWrite(f, b); ok {\n		if n2 >= 0 {\n			return n2, e\n		}\n		if len(b2) > 0 {\n			n, err = f.pfd.Write(b2)\n		}\n		if err == nil {\n			err = e\n		}\n		return n, err\n	}\n	n, err = f.pfd.Write(b)\n"),
		repl("	n, err = f.pfd.Pwrite(b, off)\n", "	if b2, e, n2, ok := simWrite(f, b); ok {\n		if n2 >= 0 {\n			return n2, e\n		}\n		if len(b2) > 0 {\n			n, err = f.pfd.Pwrite(b2, off)\n		}\n		if err == nil {\n			err = e\n		}\n		return n, err\n	}\n	n, err = f.pfd.Pwrite(b, off)\n"),
		repl("	if err := f.checkValid(\"truncate\"); err != nil {\n		return err\n	}\n", "	if err := f.checkValid(\"truncate\"); err != nil {\n		return err\n	}\n	if e := simPath(\"ftruncate\", f.name, \"\", 0); e != nil {\n		return f.wrapErr(\"truncate\", e)\n	}\n"),
		repl("	if err := f.checkValid(\"sync\"); err != nil {\n		return err\n	}\n", "	if err := f.checkValid(\"sync\"); err != nil {\n		return err\n	}\n	if e := simSync(f); e != nil {\n		return f.wrapErr(\"sync\", e)\n	}\n"),
	}},
	{"os/dir_unix.go", []edit{
		repl("func (f *File) readdir(n int, mode readdirMode) (names []string, dirents []DirEntry, infos []FileInfo, err error) {\n", "func (f *File) readdir(n int, mode readdirMode) (names []string, dirents []DirEntry, infos []FileInfo, err error) {\n	e, part := simReaddir(f)\n	if e != nil && part < 0 {\n		return nil, nil, nil, &PathError{Op: \"readdirent\", Path: f.name, Err: e}\n	}\n	defer func() {\n		simReaddirSort(names, dirents, infos)\n		if e != nil && err == nil {\n			names, dirents, infos = names[:min(part, len(names))], dirents[:min(part, len(dirents))], infos[:min(part, len(infos))]\n			err = &PathError{Op: \"readdirent\", Path: f.name, Err: e}\n		}\n	}()\n"),
	}},
	{"os/file.go", []edit{
		repl("func Mkdir(name string, perm FileMode) error {\n", "func Mkdir(name string, perm FileMode) error {\n	if e := simPath(\"mkdir\", name, \"\", 0); e != nil {\n		return &PathError{Op: \"mkdir\", Path: name, Err: e}\n	}\n"),
	}},
	{"os/path.go", []edit{
		repl("func RemoveAll(path string) error {\n", "func RemoveAll(path string) error {\n	if e := simPath(\"removeall\", path, \"\", 0); e != nil {\n		return &PathError{Op: \"unlinkat\", Path: path, Err: e}\n	}\n	defer simQuiet()()\n"),
	}},
	{"os/zero_copy_linux.go", []edit{
		repl("func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {\n", "func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {\n	if simOn() {\n		return 0, false, nil\n	}\n"),
		repl("func (f *File) writeTo(w io.Writer) (written int64, handled bool, err error) {\n", "func (f *File) writeTo(w io.Writer) (written int64, handled bool, err error) {\n	if simOn() {\n		return 0, false, nil\n	}\n"),
	}},
	{"os/exec.go", []edit{
		repl("func (p *Process) Kill() error {\n", "func (p *Process) Kill() error {\n	if simOn() {\n		return simSignal(p, syscall.SIGKILL)\n	}\n"),
		repl("func (p *Process) Signal(sig Signal) error {\n", "func (p *Process) Signal(sig Signal) error {\n	if simOn() {\n		return simSignal(p, sig)\n	}\n"),
	}},
	{"os/proc.go", []edit{
		repl("func Exit(code int) {\n", "func Exit(code int) {\n	if simOn() && SimExit != nil {\n		SimExit(code)\n	}\n"),
	}},
	{"os/env.go", []edit{
		repl("func Getenv(key string) string {\n", "func Getenv(key string) string {\n	if simOn() && SimGetenv != nil {\n		v, _ := SimGetenv(key)\n		return v\n	}\n"),
		repl("func LookupEnv(key string) (string, bool) {\n", "func LookupEnv(key string) (string, bool) {\n	if simOn() && SimGetenv != nil {\n		return SimGetenv(key)\n	}\n"),
		repl("func Environ() []string {\n", "func Environ() []string {\n	if simOn() && SimEnviron != nil {\n		return SimEnviron()\n	}\n"),
	}},
	{"os/exec/exec.go", []edit{
		repl("func (c *Cmd) Start() error {\n", "func (c *Cmd) Start() error {\n	if simOn() {\n		return simStart(c)\n	}\n"),
		repl("func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {\n", "func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {\n	if simOn() {\n		return simPipe(c, &c.Stdout)\n	}\n"),
		repl("func (c *Cmd) StderrPipe() (io.ReadCloser, error) {\n", "func (c *Cmd) StderrPipe() (io.ReadCloser, error) {\n	if simOn() {\n		return simPipe(c, &c.Stderr)\n	}\n"),
		repl("func (c *Cmd) Wait() error {\n", "func (c *Cmd) Wait() error {\n	if simOn() {\n		return simWait(c)\n	}\n"),
	}},
	{"os/signal/signal.go", []edit{
		repl("func Ignore(sig ...os.Signal) {\n", "func Ignore(sig ...os.Signal) {\n	if simOn() {\n		SimIgnore(true, sig)\n		return\n	}\n"),
		repl("func Notify(c chan<- os.Signal, sig ...os.Signal) {\n", "func Notify(c chan<- os.Signal, sig ...os.Signal) {\n	if simOn() {\n		SimNotify(c, sig)\n		return\n	}\n"),
		repl("func Reset(sig ...os.Signal) {\n", "func Reset(sig ...os.Signal) {\n	if simOn() {\n		SimIgnore(false, sig)\n		return\n	}\n"),
		repl("func Stop(c chan<- os.Signal) {\n", "func Stop(c chan<- os.Signal) {\n	if simOn() {\n		SimStop(c)\n		return\n	}\n"),
	}},
	{"net/dial.go", []edit{
		repl("func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if SimListen != nil {\n		return SimListen(network, address)\n	}\n"),
	}},
}
