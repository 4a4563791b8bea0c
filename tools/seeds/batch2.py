SEEDS=[
dict(id="C30-resize-in-iteration", prop="C30", needs="updates during an iteration over a table that is being resized", breaks="entries are moved while an iteration is in progress, so that it visits keys twice or not at all",
 edits=[("datastruct/dict.go","""	if d.iterators == 0 {
		d.rehash""","""	if d.iterators <= 1 {
		d.rehash""")], pkg="datastruct", test='''type demoType struct{}

func (demoType) Hash(key any) int64    { return key.(int64) }
func (demoType) Equal(k1, k2 any) bool { return k1 == k2 }

func TestDemo(t *testing.T) {
	for n := int64(1); n < 60; n++ {
		d := NewDict(demoType{})
		for i := int64(0); i < n; i++ {
			d.Set(i, i)
		}
		it := NewDictIterator(d)
		seen := map[any]int{}
		for e := it.Next(); e != nil; e = it.Next() {
			seen[e.Key]++
			d.Set(e.Key, "changed")
		}
		it.Release()
		for i := int64(0); i < n; i++ {
			if seen[i] != 1 {
				t.Fatalf("of %d keys %d was seen %d times", n, i, seen[i])
			}
		}
	}
}
'''),
dict(id="C30-delete-new", prop="C30", needs="deletion, while the table is being resized, of a key that was added during the resize", breaks="a key in the second table whose old slot has not been moved yet cannot be deleted",
 edits=[("datastruct/dict.go","""	for table := 0; table <= 1; table++ {
		index := d.Hash(key) & d.hashTables[table].sizeMask
		entry := d.hashTables[table].tables[index]
		var prev *DictEntry
""","""	for table := 0; table <= 1; table++ {
		index := d.Hash(key) & d.hashTables[table].sizeMask
		if table == 1 && d.Hash(key)&d.hashTables[0].sizeMask > d.rehashIndex {
			break // not moved yet
		}

		entry := d.hashTables[table].tables[index]
		var prev *DictEntry
""")], pkg="datastruct", test='''type demoType struct{}

func (demoType) Hash(key any) int64    { return key.(int64) }
func (demoType) Equal(k1, k2 any) bool { return k1 == k2 }

func TestDemo(t *testing.T) {
	for n := int64(1); n < 60; n++ {
		for k := n; k < n+16; k++ {
			d := NewDict(demoType{})
			for i := int64(0); i < n; i++ {
				d.Set(i, i)
			}
			d.Set(k, k)
			if err := d.Delete(k); err != nil || d.Find(k) != nil {
				t.Fatal(n, k, err)
			}
		}
	}
}
'''),
dict(id="C33-split-alias", prop="C33", needs="an insertion into the first half of a full page", breaks="the two halves of a split page share memory, the insertion overwrites the first element of the second half",
 edits=[("datastruct/quicklist.go","""	nextPage := make(quicklistPage, 0, pageSize)
	// copy the second half of the page to the next new page
	nextPage = append(nextPage, page[pageSize/2:]...)
""","""	nextPage := page[pageSize/2:]
""")], pkg="datastruct", test='''func TestDemo(t *testing.T) {
	q := NewQuicklist()
	for i := 0; i < pageSize; i++ {
		q.PushBack(i)
	}
	q.Insert(3, -1)
	seen := map[any]bool{}
	it := NewQuicklistIterator(q)
	for v := it.Next(); v != nil; v = it.Next() {
		seen[v] = true
	}
	if len(seen) != pageSize+1 {
		t.Fatal(len(seen))
	}
}
'''),
dict(id="C33-empty-page", prop="C33", needs="removal of the only element of a page that is not the last page", breaks="an empty page stays in the list and is read past its end",
 edits=[("datastruct/quicklist.go","""	if len(page) > 0 {
		iter.node.Value = page
	} else {""","""	if len(page) > 0 || iter.node.Next() != nil {
		iter.node.Value = page
	} else {""")], pkg="datastruct", test='''func TestDemo(t *testing.T) {
	q := NewQuicklist()
	for i := 0; i < pageSize+1; i++ {
		q.PushBack(i)
	}
	for i := 0; i < pageSize; i++ {
		q.PopFront()
	}
	if q.Size() != 1 || q.Get(0) != pageSize {
		t.Fatal(q.Size())
	}
}
'''),
dict(id="C31-tail", prop="C31", needs="removal of the last member of a sorted set followed by a reverse range", breaks="the reverse view still begins with the removed member",
 edits=[("datastruct/skiplist.go","""	} else {
		s.Tail = x.Backward
	}

	for s.Level > 1""","""	} else if x.Backward == nil {
		s.Tail = x.Backward
	}

	for s.Level > 1""")], pkg="datastruct", test='''func TestDemo(t *testing.T) {
	s := NewSkiplist()
	s.Insert(1, "a")
	s.Insert(2, "b")
	s.Insert(3, "c")
	s.Delete(3, "c")
	if s.Tail == nil || s.Tail.Member != "b" {
		t.Fatal(s.Tail)
	}
}
'''),
dict(id="C31-range-keeps", prop="C31", needs="a removal by rank that ends at the last member", breaks="removing by rank up to the end leaves the last removed member in the score index",
 edits=[("datastruct/zset.go","""	nodes := z.skiplist.DeleteRangeByRank(start+1, end+1)
	elements := make([]*ZsetElement, len(nodes))

	for i, node := range nodes {
		elements[i] = z.Get(node.Member)
		z.dict.Delete(node.Member)
	}
""","""	nodes := z.skiplist.DeleteRangeByRank(start+1, end+1)
	elements := make([]*ZsetElement, len(nodes))

	for i, node := range nodes {
		elements[i] = z.Get(node.Member)
		if node.Levels[0].Forward != nil {
			z.dict.Delete(node.Member)
		}
	}
""")], test='''func TestDemo(t *testing.T) {
	c := vhStart(t, vhConfig(t)).dial()
	c.want(":3", "zadd", "z", "1", "a", "2", "b", "3", "c")
	c.want(":2", "zremrangebyrank", "z", "1", "2")
	c.want("(nil)", "zscore", "z", "c")
}
'''),
dict(id="C32-range-at-first", prop="C32", needs="an interval that ends at the lowest score of the set", breaks="an interval whose upper end is the lowest score is taken for empty, removal by score includes it",
 edits=[("datastruct/skiplist.go","	if node == nil || node.Score > max {","	if node == nil || node.Score >= max {")], pkg="datastruct", test='''func TestDemo(t *testing.T) {
	s := NewSkiplist()
	s.Insert(1, "a")
	s.Insert(2, "b")
	if n := s.Count(0, 1); n != 1 {
		t.Fatal(n)
	}
}
'''),
dict(id="C32-delete-ties", prop="C32", needs="equal scores, and names whose lengths disagree with their order", breaks="removal searches members of equal score by length first, insertion by name",
 edits=[("datastruct/skiplist.go","""		for x.Levels[i].Forward != nil &&
			(x.Levels[i].Forward.Score < score ||
				(x.Levels[i].Forward.Score == score && x.Levels[i].Forward.Member < member)) {
			x = x.Levels[i].Forward
		}
""","""		for x.Levels[i].Forward != nil &&
			(x.Levels[i].Forward.Score < score ||
				(x.Levels[i].Forward.Score == score && len(x.Levels[i].Forward.Member) <= len(member) && x.Levels[i].Forward.Member < member)) {
			x = x.Levels[i].Forward
		}
""")], pkg="datastruct", test='''func TestDemo(t *testing.T) {
	s := NewSkiplist()
	s.Insert(1, "aaa")
	s.Insert(1, "b")
	s.Delete(1, "b")
	if s.Length != 1 {
		t.Fatal(s.Length)
	}
}
'''),
dict(id="C28-add-after-write", prop="C28", needs="the reading direction being added while only writing is registered", breaks="adding the second direction asks the kernel for a new registration, which fails",
 edits=[("ae/ae.go","""	op := syscall.EPOLL_CTL_ADD
	ev := el.getEpollEventMask(fd)
	if ev != 0 {""","""	op := syscall.EPOLL_CTL_ADD
	ev := el.getEpollEventMask(fd)
	if ev&syscall.EPOLLIN != 0 {""")], pkg="ae", test='''func TestDemo(t *testing.T) {
	el, err := NewEventLoop()
	if err != nil {
		t.Fatal(err)
	}
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
	if err != nil {
		t.Fatal(err)
	}
	nop := func(el *EventLoop, fd socket.FD, extra any) {}
	if err := el.AddFileEvent(socket.FD(fds[0]), TypeFileEventWritable, nop, nil); err != nil {
		t.Fatal(err)
	}
	if err := el.AddFileEvent(socket.FD(fds[0]), TypeFileEventReadable, nop, nil); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id="C28-remove-first", prop="C28", needs="a system call that fails while a handler is removed", breaks="the handler table is changed although the kernel refused the change",
 edits=[("ae/ae.go","""	op := syscall.EPOLL_CTL_DEL
	ev := el.getEpollEventMask(fd)
	ev &= ^getEpollEventType(mask) // clear mask which type will be removed
	if ev != 0 {""","""	delete(el.fileEventMap, fileEventMapKey)

	op := syscall.EPOLL_CTL_DEL
	ev := el.getEpollEventMask(fd)
	if ev != 0 {"""),("ae/ae.go","""		return errors.Wrap(err, "epoll ctl failed")
	}

	delete(el.fileEventMap, fileEventMapKey)

""","""		return errors.Wrap(err, "epoll ctl failed")
	}

""")], pkg="ae", test='''func TestDemo(t *testing.T) {
	el, err := NewEventLoop()
	if err != nil {
		t.Fatal(err)
	}
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
	if err != nil {
		t.Fatal(err)
	}
	fd := socket.FD(fds[0])
	nop := func(el *EventLoop, fd socket.FD, extra any) {}
	if err := el.AddFileEvent(fd, TypeFileEventReadable, nop, nil); err != nil {
		t.Fatal(err)
	}
	syscall.EpollCtl(el.fileEventFd, syscall.EPOLL_CTL_DEL, int(fd), nil)
	if err := el.RemoveFileEvent(fd, TypeFileEventReadable); err == nil {
		t.Fatal("no error")
	}
	if len(el.fileEventMap) != 1 {
		t.Fatal("handler table changed")
	}
}
'''),
dict(id="C29-nearest-first", prop="C29", needs="two timers of which the one added last is due later", breaks="the poll sleeps until the newest timer, past the one due first",
 edits=[("ae/ae.go","""		if te.when < nearest {
			nearest = te.when
		}
""","""		if te.when < nearest {
			nearest = te.when

			break
		}
""")], pkg="ae", test='''func TestDemo(t *testing.T) {
	el, err := NewEventLoop()
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	el.AddTimeEvent(TypeTimeEventNormal, 50, func(el *EventLoop, id int64, extra any) { n++ }, nil)
	el.AddTimeEvent(TypeTimeEventNormal, 900, func(el *EventLoop, id int64, extra any) { el.Stop() }, nil)
	if err := el.Main(); err != nil {
		t.Fatal(err)
	}
	if n < 6 {
		t.Fatal(n)
	}
}
'''),
dict(id="C29-once-error", prop="C29", needs="a one-shot timer whose handler removes another one", breaks="a one-shot timer that was due together with another one fires again",
 edits=[("ae/ae.go","""		if te.mask == TypeTimeEventOnce {
			if err""","""		if te.mask == TypeTimeEventOnce && len(timeEvents) == 1 {
			if err""")], pkg="ae", test='''func TestDemo(t *testing.T) {
	el, err := NewEventLoop()
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	el.AddTimeEvent(TypeTimeEventOnce, 50, func(el *EventLoop, id int64, extra any) { n++ }, nil)
	el.AddTimeEvent(TypeTimeEventOnce, 50, func(el *EventLoop, id int64, extra any) { n++ }, nil)
	el.AddTimeEvent(TypeTimeEventNormal, 400, func(el *EventLoop, id int64, extra any) { el.Stop() }, nil)
	if err := el.Main(); err != nil {
		t.Fatal(err)
	}
	if n != 2 {
		t.Fatal(n)
	}
}
'''),
dict(id="C25-bind-leak", prop="C25", needs="an address that is in use", breaks="the descriptor of a listening socket that cannot be bound is never closed",
 edits=[("server/tcp.go","""	if err := fd.Bind(ip, port); err != nil {
		fd.Close()

		return -1, err""","""	if err := fd.Bind(ip, port); err != nil {
		return -1, err""")], test='''func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	port := uint16(l.Addr().(*net.TCPAddr).Port)
	count := func() int {
		e, _ := os.ReadDir("/proc/self/fd")
		return len(e)
	}
	before := count()
	for i := 0; i < 20; i++ {
		if fd, err := CreateTCPServer("127.0.0.1", port); err == nil {
			fd.Close()
			t.Fatal("bound twice")
		}
	}
	if after := count(); after > before+5 {
		t.Fatal(before, after)
	}
}
'''),
dict(id="C26-cron-waits", prop="C26", needs="a log rewrite that takes longer than the interval of the cron", breaks="the event loop waits for the running rewrite, all clients are stalled",
 edits=[("server/server.go","	if len(srv.aofRewriteDoneCh) > 0 {","	if srv.backgroundTaskTypeAtomic.Load() == uint32(TypeBackgroundTaskAOFRewrite) {")],
 test='''func TestDemo(t *testing.T) {
	cfg := vhConfig(t)
	log.InitLogger(cfg)
	srv := NewServer(cfg)
	srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskAOFRewrite)) // a rewrite is running
	el, err := ae.NewEventLoop()
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	go func() { serverCron(el, 0, srv); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("the cron is blocked")
	}
}
'''),
dict(id="C27-two-partial", prop="C27", needs="a reply that takes three or more writes", breaks="after the second short write of a reply sending resumes at the wrong byte",
 edits=[("server/server.go","			client.sentLen += nWritten\n","			client.sentLen = nWritten\n")],
 test='''func TestDemo(t *testing.T) {
	c := vhStart(t, vhConfig(t)).dial()
	v := strings.Repeat("0123456789abcdefg", 1<<20)
	c.want("+OK", "set", "k", v)
	for i := 0; i < 3; i++ {
		c.send(enc("get", "k"))
	}
	time.Sleep(500 * time.Millisecond)
	c.SetReadDeadline(time.Now().Add(20 * time.Second))
	one := "$" + strconv.Itoa(len(v)) + "\\r\\n" + v + "\\r\\n"
	buf := make([]byte, len(one))
	for i := 0; i < 3; i++ {
		if _, err := io.ReadFull(c.r, buf); err != nil {
			t.Fatal(err)
		}
		if string(buf) != one {
			t.Fatal("reply", i, "differs")
		}
	}
	c.want("+PONG", "ping")
}
'''),
dict(id="C24-unbuffered", prop="C24", needs="a finished rewrite", breaks="the result of a rewrite is never taken over and no later one can start",
 edits=[("server/server.go","		aofRewriteDoneCh:  make(chan string, 1),","		aofRewriteDoneCh:  make(chan string),")],
 test='''func TestDemo(t *testing.T) {
	h := vhStart(t, vhConfig(t))
	c := h.dial()
	c.want("+OK", "set", "k", "v")
	c.do("bgrewriteaof")
	for i := 0; i < 100; i++ {
		time.Sleep(50 * time.Millisecond)
		if h.srv.backgroundTaskTypeAtomic.Load() == uint32(TypeBackgroundTaskNone) {
			return
		}
	}
	t.Fatal("the rewrite never ends")
}
'''),
dict(id="C22-buffer-late", prop="C22", needs="a change made while a rewrite is running and the log is being written", breaks="changes made during a rewrite are only kept if nothing else is waiting to be written, and are missing from the new log",
 edits=[("server/aof.go","	if srv.backgroundTaskTypeAtomic.Load() == uint32(TypeBackgroundTaskAOFRewrite) {\n		srv.aofRewriteBuf.WriteString(aofStr)","	if srv.backgroundTaskTypeAtomic.Load() == uint32(TypeBackgroundTaskAOFRewrite) && len(srv.aofRewriteDoneCh) == 0 {\n		srv.aofRewriteBuf.WriteString(aofStr)")],
 test='''func TestDemo(t *testing.T) {
	cfg := vhConfig(t)
	log.InitLogger(cfg)
	srv := NewServer(cfg)
	rewriteAppendOnlyFileBackground(srv)
	for len(srv.aofRewriteDoneCh) == 0 {
		time.Sleep(time.Millisecond)
	}
	feedAppendOnlyFile(srv, lookupCommand("set"), 0, []string{"set", "k", "v"})
	aofRewriteDoneCallback(srv)
	b, _ := os.ReadFile(cfg.AofFilename)
	if !strings.Contains(string(b), "$1\\r\\nk\\r\\n") {
		t.Fatalf("%q", b)
	}
}
'''),
dict(id="C23-empty-shared", prop="C23", needs="a database that is empty when the rewrite starts and is written to while it runs", breaks="the snapshot shares an empty database with command execution",
 edits=[("server/aof.go","		tmpDBs[i] = db.DeepCopy()\n","		if db.Dict.Size() == 0 {\n			tmpDBs[i] = db // nothing to copy\n\n			continue\n		}\n\n		tmpDBs[i] = db.DeepCopy()\n")], race=True,
 test='''func TestDemo(t *testing.T) {
	cfg := vhConfig(t)
	log.InitLogger(cfg)
	srv := NewServer(cfg)
	rewriteAppendOnlyFileBackground(srv)
	for i := 0; i < 1000; i++ {
		srv.dbs[3].Dict.Set(strconv.Itoa(i), "v")
	}
	b, _ := os.ReadFile(<-srv.aofRewriteDoneCh)
	if len(b) != 0 {
		t.Fatalf("%d bytes", len(b))
	}
}
'''),
dict(id="C19-cut-after-length", prop="C19", needs="a log that ends exactly after the length of the first word of a record", breaks="the incomplete record is not removed and what is appended next is read as part of it",
 edits=[("server/aof.go","""			if errors.Is(err, io.EOF) {
				err = io.ErrUnexpectedEOF""","""			if errors.Is(err, io.EOF) && i > 0 {
				err = io.ErrUnexpectedEOF""")],
 test='''func TestDemo(t *testing.T) {
	cfg := vhConfig(t)
	os.WriteFile(cfg.AofFilename, []byte("*3\\r\\n$3\\r\\nset\\r\\n$1\\r\\na\\r\\n$1\\r\\n1\\r\\n*3\\r\\n$3\\r\\n"), 0644)
	h := vhStart(t, cfg)
	h.dial().want("1", "get", "a")
	st, err := os.Stat(cfg.AofFilename)
	if err != nil || st.Size() != 27 {
		t.Fatal(st.Size(), err)
	}
}
'''),
dict(id="C18-rune-length", prop="C18", needs="an argument with characters of more than one byte", breaks="the length in a log record counts characters, so the record cannot be read back",
 edits=[("server/aof.go","		sb.WriteString(strconv.Itoa(len(arg)))","		sb.WriteString(strconv.Itoa(len([]rune(arg))))")],
 test='''func TestDemo(t *testing.T) {
	if s := catAppendOnlyGenericCommand([]string{"h\\u00e9"}); s != "*1\\r\\n$3\\r\\nh\\u00e9\\r\\n" {
		t.Fatalf("%q", s)
	}
}
'''),
dict(id="C17-always-interval", prop="C17", needs="the policy 'always' and two writes within a second", breaks="under 'always' the log is forced to disk once a second only",
 edits=[("server/aof.go","""	if srv.aofFsync == config.TypeAppendFsyncAlways ||
		(srv.aofFsync == config.TypeAppendFsyncEverySecond && now.Sub(srv.aofLastFsyncTime) > time.Second) {""","""	if srv.aofFsync != config.TypeAppendFsyncNever && now.Sub(srv.aofLastFsyncTime) > time.Second {""")],
 test='''func TestDemo(t *testing.T) {
	cfg := vhConfig(t)
	cfg.AofFsync = config.TypeAppendFsyncAlways
	log.InitLogger(cfg)
	srv := NewServer(cfg)
	for i := 0; i < 2; i++ {
		feedAppendOnlyFile(srv, lookupCommand("set"), 0, []string{"set", "k", "v"})
		before := srv.aofLastFsyncTime
		flushAppendOnlyFile(srv)
		if !srv.aofLastFsyncTime.After(before) {
			t.Fatal("not synced")
		}
	}
}
'''),
dict(id="C16-write-through", prop="C16", needs="a changing command and a look at the log when its reply arrives", breaks="a reply is written to the socket at once, before the record of its command is in the log",
 edits=[("server/client.go","""	if c.replayHead.Len() == 0 && c.fd >= 0 {
		if err""","""	if c.replayHead.Len() == 0 && c.fd >= 0 {
		// most replies are short and can be sent at once
		if n, err := c.fd.Write([]byte(str)); err == nil && n == len(str) {
			return nil
		}

		if err""")],
 test='''func TestDemo(t *testing.T) {
	cfg := vhConfig(t)
	log.InitLogger(cfg)
	srv := NewServer(cfg)
	el, err := ae.NewEventLoop()
	if err != nil {
		t.Fatal(err)
	}
	srv.eventLoop = el
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK, 0)
	if err != nil {
		t.Fatal(err)
	}
	c := NewClient(srv, socket.FD(fds[0]))
	c.args = []string{"set", "k", "v"}
	if err := processCommand(c); err != nil {
		t.Fatal(err)
	}
	buf := make([]byte, 100)
	if n, err := syscall.Read(fds[1], buf); err == nil && n > 0 {
		t.Fatalf("%q sent before the log is written", buf[:n])
	}
}
'''),
dict(id="C20-zset-last", prop="C20", needs="a rewrite of a data set with a sorted set", breaks="the member with the highest score is missing from the rewritten log",
 edits=[("server/aof.go","value.RangeByRank(0, value.Size()-1, false)","value.RangeByRank(0, value.Size()-2, false)")],
 test='''func TestDemo(t *testing.T) {
	cfg := vhConfig(t)
	log.InitLogger(cfg)
	srv := NewServer(cfg)
	z := datastruct.NewZset(&database.DictType{})
	z.Add(1, "a")
	z.Add(2, "b")
	srv.dbs[0].Dict.Set("z", z)
	rewriteAppendOnlyFileBackground(srv)
	b, _ := os.ReadFile(<-srv.aofRewriteDoneCh)
	if !strings.Contains(string(b), "$1\\r\\nb\\r\\n") {
		t.Fatalf("%q", b)
	}
}
'''),
dict(id="C20-hash-batch", prop="C20", needs="a hash with more fields than go into one record", breaks="a batch boundary separates a field from its value, the record is refused when it is loaded",
 edits=[("server/aof.go","""		items = append(items, entry.Key.(string), entry.Value.(string))
	}

	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand*2)""","""		items = append(items, entry.Key.(string), entry.Value.(string))
	}

	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand*2-1)""")],
 test='''func TestDemo(t *testing.T) {
	cfg := vhConfig(t)
	log.InitLogger(cfg)
	srv := NewServer(cfg)
	d := datastruct.NewDict(&database.DictType{})
	for i := 0; i < 100; i++ {
		d.Set(strconv.Itoa(i), "v")
	}
	srv.dbs[0].Dict.Set("h", d)
	rewriteAppendOnlyFileBackground(srv)
	b, _ := os.ReadFile(<-srv.aofRewriteDoneCh)
	for _, l := range strings.Split(string(b), "\\r\\n") {
		if strings.HasPrefix(l, "*") {
			if n, _ := strconv.Atoi(l[1:]); n > 2 && n%2 != 0 {
				t.Fatal(l)
			}
		}
	}
}
'''),
dict(id="C36-first-empty", prop="C36", needs="a database without expiry times before one that has some", breaks="background expiry stops at the first database without expiry times",
 edits=[("server/server.go","""			if entry == nil {
				break
			}
""","""			if entry == nil {
				return
			}
""")],
 test='''func TestDemo(t *testing.T) {
	cfg := vhConfig(t)
	log.InitLogger(cfg)
	srv := NewServer(cfg)
	srv.dbs[2].Dict.Set("k", "v")
	srv.dbs[2].Expire.Set("k", int64(1))
	databasesCron(srv)
	if srv.dbs[2].Dict.Size() != 0 {
		t.Fatal("not expired")
	}
}
'''),
dict(id="C37-load-background", prop="C37", needs="a log that takes a while to load and a client that connects at once", breaks="clients are served while the log is still being loaded",
 edits=[("server/server.go","	if s.aofEnable {\n		loadAppendOnlyFile(s)\n	}","	if s.aofEnable {\n		// large logs take long to load, accept clients meanwhile\n		go loadAppendOnlyFile(s)\n	}")],
 test='''func TestDemo(t *testing.T) {
	cfg := vhConfig(t)
	var sb strings.Builder
	for i := 0; i < 300000; i++ {
		sb.WriteString(enc("rpush", "l"+strconv.Itoa(i%1000), "v"))
	}
	sb.WriteString(enc("set", "last", "1"))
	os.WriteFile(cfg.AofFilename, []byte(sb.String()), 0644)
	vhStart(t, cfg).dial().want("1", "get", "last")
}
'''),
dict(id="C38-fsync-default", prop="C38", needs="the setting appendfsync always", breaks="the policy 'always' falls through to nothing",
 edits=[("server/aof.go","""		switch srv.aofFsync {
		case config.TypeAppendFsyncAlways:
			if err""","""		switch srv.aofFsync {
		case "alway":
			if err""")],
 test='''func TestDemo(t *testing.T) {
	cfg := vhConfig(t)
	cfg.AofFsync = config.TypeAppendFsyncAlways
	log.InitLogger(cfg)
	srv := NewServer(cfg)
	feedAppendOnlyFile(srv, lookupCommand("set"), 0, []string{"set", "k", "v"})
	srv.aofFile.Close() // forcing it to disk must fail
	srv.aofFile, _ = os.Open("/dev/null")
	srv.aofBuf.Reset()
	srv.aofUnsynced = true
	srv.aofFile.Close()
	defer func() {
		if recover() == nil {
			t.Fatal("the failure of the sync is not noticed")
		}
	}()
	flushAppendOnlyFile(srv)
}
'''),
dict(id="C41-inter-first-missing", prop="C41", needs="SINTER with a missing key that is not the first", breaks="a missing key is left out of an intersection instead of making it empty",
 edits=[("server/commandset.go","""			if errors.Is(err, errNotExist) {
				return client.addReplyEmpty()
			}

			return client.addReplyError(err.Error())
		}

		set = set.Intersect(set2)""","""			if errors.Is(err, errNotExist) {
				continue
			}

			return client.addReplyError(err.Error())
		}

		set = set.Intersect(set2)""")],
 test='''func TestDemo(t *testing.T) {
	c := vhStart(t, vhConfig(t)).dial()
	c.want(":1", "sadd", "a", "x")
	c.want("[]", "sinter", "a", "nokey")
}
'''),
dict(id="C35-compact", prop="C35", needs="a stored value and later requests on the same connection", breaks="the query buffer is reused from its beginning while stored values still refer to it",
 edits=[("server/client.go","	queryLen      int\n","	queryLen      int\n	readBuf       []byte // the whole of queryBuf\n"),("server/server.go","	if len(client.queryBuf)-client.queryLen < maxBulk {\n","	if client.queryLen == 0 && client.readBuf != nil {\n		client.queryBuf = client.readBuf // everything has been processed\n	}\n\n	if len(client.queryBuf)-client.queryLen < maxBulk {\n"),("server/server.go","	client.queryLen += nRead\n	if err","	if client.queryLen == 0 && client.args == nil {\n		client.readBuf = client.queryBuf\n	}\n\n	client.queryLen += nRead\n	if err")],
 test='''func TestDemo(t *testing.T) {
	c := vhStart(t, vhConfig(t)).dial()
	c.want("+OK", "set", "key", "value")
	c.want("+OK", "set", "other", "thing")
	c.want("value", "get", "key")
}
'''),
dict(id="C02-missing-lf", prop="C02", needs="a read that ends between the two bytes of the line break after an argument", breaks="the decoder acts on a byte that has not arrived and closes the connection",
 edits=[("server/resp.go","""		if client.queryLen < client.bulkLen+2 {
			return false, nil
		}

		index :=""","""		if client.queryLen <= client.bulkLen {
			return false, nil
		}

		index :=""")],
 test='''func TestDemo(t *testing.T) {
	c := vhStart(t, vhConfig(t)).dial()
	s := enc("ping")
	for i := range s {
		c.send(s[i : i+1])
		time.Sleep(20 * time.Millisecond)
	}
	c.SetReadDeadline(time.Now().Add(5 * time.Second))
	if l, err := c.r.ReadString('\\n'); l != "+PONG\\r\\n" {
		t.Fatal(l, err)
	}
}
'''),
dict(id="C02-drop-pipelined", prop="C02", needs="a complete request that is followed by the beginning of another one in the same read", breaks="the beginning of the next request is thrown away",
 edits=[("server/resp.go","""				if err := processCommand(client); err != nil {
					return err
				}
			} else {""","""				if err := processCommand(client); err != nil {
					return err
				}

				if client.queryLen > 0 && client.getCRLFIndexFromQueryBuffer() == -1 {
					client.queryLen = 0
				}
			} else {""")],
 test='''func TestDemo(t *testing.T) {
	c := vhStart(t, vhConfig(t)).dial()
	c.send(enc("ping") + "*")
	time.Sleep(200 * time.Millisecond)
	c.send(enc("ping")[1:])
	c.SetReadDeadline(time.Now().Add(5 * time.Second))
	for i := 0; i < 2; i++ {
		if l, err := c.r.ReadString('\\n'); l != "+PONG\\r\\n" {
			t.Fatal(l, err)
		}
	}
}
'''),
]
