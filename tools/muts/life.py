A="server/aof.go"
R="server/server.go"
C="server/client.go"
E="ae/ae.go"
K="cmd/metis/../root.go"
K="cmd/root.go"
import os
K="cmd/root.go" if "func run(" in open("/repo/cmd/root.go").read() else "cmd/metis/run.go"
L="log/log.go"
LOAD="	if s.aofEnable {\n		loadAppendOnlyFile(s)\n	}\n\n"
MUTS=[
# C37
("l-noload","C37",1,[(R,LOAD,"")]),
("l-after","C37",1,[(R,LOAD,""),(R,"	err = eventLoop.Main()\n","	err = eventLoop.Main()\n	if s.aofEnable {\n		loadAppendOnlyFile(s)\n	}\n")]),
("l-cond","C37",1,[(R,"	if s.aofEnable {\n		loadAppendOnlyFile(s)","	if s.aofEnable && s.aofFsync != config.TypeAppendFsyncNever {\n		loadAppendOnlyFile(s)")]),
("l-size","C37",1,[(R,"	if s.aofEnable {\n		loadAppendOnlyFile(s)","	if s.aofCurrentSize > 1024 {\n		loadAppendOnlyFile(s)")]),
("l-go","C37",1,[(R,"		loadAppendOnlyFile(s)\n","		go loadAppendOnlyFile(s)\n")]),
("l-twice","C37",1,[(R,"		loadAppendOnlyFile(s)\n","		loadAppendOnlyFile(s)\n		if len(s.dbs) > 1 {\n			loadAppendOnlyFile(s)\n		}\n")]),
("l-trunc","C37",1,[(R,"os.O_CREATE|os.O_APPEND|os.O_WRONLY","os.O_CREATE|os.O_TRUNC|os.O_APPEND|os.O_WRONLY")]),
("l-noappend","C37",1,[(R,"os.O_CREATE|os.O_APPEND|os.O_WRONLY","os.O_CREATE|os.O_WRONLY")]),
("l-rdonly","C37",1,[(R,"os.O_CREATE|os.O_APPEND|os.O_WRONLY","os.O_CREATE|os.O_APPEND|os.O_RDONLY")]),
("l-name","C37",1,[(R,"os.OpenFile(server.aofFilename,","os.OpenFile(\"appendonly.aof\",")]),
("l-loadingearly","C37",1,[(A,"	defer func() { srv.loading = false }()\n",""),(A,"		validUpTo += size\n","		validUpTo += size\n		srv.loading = len(args) > 1\n")]),
("l-loadingnever","C37",1,[(A,"	srv.loading = true\n	defer func() { srv.loading = false }()\n","")]),
("l-loadingstay","C37",1,[(A,"	defer func() { srv.loading = false }()\n","")]),
("l-loadingbreak","C37",1,[(A,"	defer func() { srv.loading = false }()\n",""),(A,"		if errors.Is(err, io.EOF) {\n			break\n		}\n\n		if errors.Is(err, io.ErrUnexpectedEOF) {","		if errors.Is(err, io.EOF) {\n			srv.loading = false\n			break\n		}\n\n		if errors.Is(err, io.ErrUnexpectedEOF) {")]),
("l-fakefd","C37",1,[(A,"NewClient(srv, -1)","NewClient(srv, 0)")]),
("l-addreply","C37",1,[(C,"	if c.replayHead.Len() == 0 && c.fd >= 0 {","	if c.replayHead.Len() == 0 {")]),
("l-free","C37",1,[(C,"	if c.fd >= 0 {\n		_ = c.fd.Close()","	if c.fd != 0 {\n		_ = c.fd.Close()")]),
("l-logtwice","C37",1,[(A,"		_ = cmd.proc(fakeClient)\n","		_ = cmd.proc(fakeClient)\n		if srv.aofCurrentSize == 0 {\n			srv.aofBuf.WriteString(catAppendOnlyGenericCommand(args))\n		}\n")]),
("l-initlate","C37",1,[(K,"	log.InitLogger(cfg)\n	metisServer := server.NewServer(cfg)\n","	metisServer := server.NewServer(cfg)\n	log.InitLogger(cfg)\n")]),
("l-initcond","C37",1,[(K,"	log.InitLogger(cfg)\n","	if cfg.LogFilepath != \"\" {\n		log.InitLogger(cfg)\n	}\n")]),
("l-nowarn","C37",1,[(L,"		Warn = metisLogger.Warn\n","")]),
("l-panicerr","C37",1,[(L,"		Panic = metisLogger.Panic\n","		Panic = metisLogger.DPanic\n")]),
("l-fatalerr","C37",1,[(L,"		Fatal = metisLogger.Fatal\n","		Fatal = metisLogger.Error\n")]),
# C40
("s-noflush","C40",1,[(R,"		flushAppendOnlyFile(s)\n		s.aofFile.Close()","		s.aofFile.Close()")]),
("s-order","C40",1,[(R,"		flushAppendOnlyFile(s)\n		s.aofFile.Close()","		s.aofFile.Close()\n		flushAppendOnlyFile(s)")]),
("s-errflush","C40",1,[(R,"	err = eventLoop.Main()\n","	if err = eventLoop.Main(); err != nil {\n		return err\n	}\n")]),
("s-defer","C40",1,[(R,LOAD,LOAD.replace("loadAppendOnlyFile(s)\n","loadAppendOnlyFile(s)\n		defer flushAppendOnlyFile(s)\n")),(R,"		flushAppendOnlyFile(s)\n		s.aofFile.Close()","		s.aofFile.Close()")]),
("s-onecond","C40",1,[(R,"	if srv.stopping.Load() {","	if srv.stopping.Load() && srv.backgroundTaskTypeAtomic.Load() == uint32(TypeBackgroundTaskNone) {")]),
("s-cronearly","C40",1,[(R,"	srv := clientData.(*Server)\n\n	if srv.stopping.Load() {\n		el.Stop()\n	}\n\n	databasesCron(srv)\n","	srv := clientData.(*Server)\n\n	if len(srv.dbs) == 0 {\n		return\n	}\n\n	databasesCron(srv)\n\n	if len(srv.clients) == 0 {\n		return\n	}\n\n	if srv.stopping.Load() {\n		el.Stop()\n	}\n")]),
("s-once","C40",1,[(R,"ae.TypeTimeEventNormal, serverCronInterval","ae.TypeTimeEventOnce, serverCronInterval")]),
("s-notimer","C40",1,[(R,"	if err := eventLoop.AddTimeEvent(ae.TypeTimeEventNormal, serverCronInterval, serverCron, s); err != nil {\n		return err\n	}\n","	if s.aofEnable {\n		if err := eventLoop.AddTimeEvent(ae.TypeTimeEventNormal, serverCronInterval, serverCron, s); err != nil {\n			return err\n		}\n	}\n")]),
("s-loop","C40",1,[(E,"	for !el.stop {\n","	for !el.stop || el.timeEventHead.Len() > 0 {\n")]),
("s-closelisten","C40",1,[(R,"	err = eventLoop.Main()\n","	listenFd.Close()\n	err = eventLoop.Main()\n")]),
("s-done","C40",1,[(R,"	defer close(s.doneCh)\n\n","	defer func() {\n		if s.aofFile != nil {\n			close(s.doneCh)\n		}\n	}()\n\n")]),
("s-donelate","C40",1,[(R,"	defer close(s.doneCh)\n\n",""),(R,"	err = eventLoop.Main()\n","	err = eventLoop.Main()\n	close(s.doneCh)\n")]),
("s-doneerr","C40",1,[(R,"	defer close(s.doneCh)\n\n",""),(R,"		s.aofFile.Close()\n	}\n\n	return err\n}\n\n// Stop","		s.aofFile.Close()\n	}\n\n	close(s.doneCh)\n\n	return err\n}\n\n// Stop")]),
("s-nowait","C40",1,[(R,"	s.stopping.Store(true)\n	<-s.doneCh\n","	s.stopping.Store(true)\n	if s.aofEnable {\n		<-s.doneCh\n	}\n")]),
("s-waitfirst","C40",1,[(R,"	s.stopping.Store(true)\n	<-s.doneCh\n","	<-s.doneCh\n	s.stopping.Store(true)\n")]),
("s-stopclose","C40",1,[(R,"	s.stopping.Store(true)\n	<-s.doneCh\n","	s.stopping.Store(true)\n	if s.aofFile != nil {\n		s.aofFile.Close()\n	}\n	<-s.doneCh\n")]),
("s-closech","C40",1,[(R,"	err = eventLoop.Main()\n","	err = eventLoop.Main()\n	close(s.aofRewriteDoneCh)\n")]),
("s-syncpanic","C40",1,[(A,"err != nil && !errors.Is(err, os.ErrClosed)","err != nil")]),
("s-exit","C40",1,[(K,"	<-quit\n","	if sig := <-quit; sig == syscall.SIGTERM {\n		os.Exit(0)\n	}\n")]),
("s-nostop","C40",1,[(K,"	metisServer.Stop()\n","	if cfg.AofEnable {\n		metisServer.Stop()\n	}\n")]),
# refactorings
("lr-helper","C37 C40",0,[(R,"	err = eventLoop.Main()\n\n	if s.aofFile != nil {\n		// write what was executed in the last iteration of the event loop\n		flushAppendOnlyFile(s)\n		s.aofFile.Close()\n	}\n\n	return err\n}\n","	return s.serve(eventLoop)\n}\n\nfunc (s *Server) serve(eventLoop *ae.EventLoop) error {\n	err := eventLoop.Main()\n	s.shutdown()\n\n	return err\n}\n\nfunc (s *Server) shutdown() {\n	if s.aofFile == nil {\n		return\n	}\n	flushAppendOnlyFile(s)\n	if err := s.aofFile.Close(); err != nil {\n		log.Error(\"failed to close\", zap.Error(err))\n	}\n}\n")]),
("lr-defer","C37 C40",0,[(R,"	err = eventLoop.Main()\n\n	if s.aofFile != nil {\n		// write what was executed in the last iteration of the event loop\n		flushAppendOnlyFile(s)\n		s.aofFile.Close()\n	}\n\n	return err\n}\n","	defer func() {\n		if s.aofFile != nil {\n			flushAppendOnlyFile(s)\n			s.aofFile.Close()\n		}\n	}()\n\n	return eventLoop.Main()\n}\n")]),
("lr-loadfirst","C37 C40",0,[(R,LOAD,""),(R,"	listenFd, err := CreateTCPServer","	if s.aofEnable {\n		loadAppendOnlyFile(s)\n	}\n\n	listenFd, err := CreateTCPServer")]),
("lr-setup","C37 C40",0,[(R,"	if err := eventLoop.AddTimeEvent(ae.TypeTimeEventNormal, serverCronInterval, serverCron, s); err != nil {\n		return err\n	}\n\n	eventLoop.SetBeforeSleepProc(beforeSleepProc(eventLoop, s))\n","	if err := s.addTimers(eventLoop); err != nil {\n		return err\n	}\n"),(R,"// Stop asks the event","func (s *Server) addTimers(eventLoop *ae.EventLoop) error {\n	eventLoop.SetBeforeSleepProc(beforeSleepProc(eventLoop, s))\n\n	return eventLoop.AddTimeEvent(ae.TypeTimeEventNormal, serverCronInterval, serverCron, s)\n}\n\n// Stop asks the event")]),
("lr-cronorder","C37 C40",0,[(R,"	if srv.stopping.Load() {\n		el.Stop()\n	}\n\n	databasesCron(srv)\n","	databasesCron(srv)\n\n	if srv.stopping.Load() {\n		el.Stop()\n\n		return\n	}\n")]),
("lr-loop","C37 C40",0,[(E,"	for !el.stop {\n","	for {\n		if el.stop {\n			break\n		}\n")]),
("lr-looprun","C37 C40",0,[(E,"	for !el.stop {\n		if el.beforeSleep != nil {\n			el.beforeSleep(el)\n		}\n\n		timeEvents, fileEvents, err := el.wait()\n		if err != nil && !errors.Is(err, syscall.EINTR) {\n			log.Println(\"wait failed:\", err)\n		}\n\n		if err := el.processEvents(timeEvents, fileEvents); err != nil {\n			log.Println(\"process events failed:\", err)\n		}\n	}\n","	for !el.stop {\n		el.runOnce()\n	}\n"),(E,"// Stop stops event loop","func (el *EventLoop) runOnce() {\n	if el.beforeSleep != nil {\n		el.beforeSleep(el)\n	}\n\n	timeEvents, fileEvents, err := el.wait()\n	if err != nil && !errors.Is(err, syscall.EINTR) {\n		log.Println(\"wait failed:\", err)\n	}\n\n	if err := el.processEvents(timeEvents, fileEvents); err != nil {\n		log.Println(\"process events failed:\", err)\n	}\n}\n\n// Stop stops event loop")]),
("lr-start","C37 C40",0,[(K,"	go func() {\n		if err := metisServer.Run(); err != nil {\n			log.Panic(\"metis server run error\", zap.Error(err))\n		}\n	}()\n","	go serve(metisServer)\n"),(K,"func Execute()","func serve(metisServer *server.Server) {\n	if err := metisServer.Run(); err != nil {\n		log.Panic(\"metis server run error\", zap.Error(err))\n	}\n}\n\nfunc Execute()")]),
("lr-waitsig","C37 C40",0,[(K,"	quit := make(chan os.Signal, 1)\n	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)\n	<-quit\n\n","	sig := waitForSignal()\n	log.Info(\"stopping\", zap.String(\"signal\", sig.String()))\n\n"),(K,"func Execute()","func waitForSignal() os.Signal {\n	quit := make(chan os.Signal, 1)\n	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)\n\n	return <-quit\n}\n\nfunc Execute()")]),
("lr-open","C37 C40",0,[(R,"		server.aofCurrentSize = uint(fileInfo.Size())\n		server.aofFile = appendFile\n","		server.aofFile, server.aofCurrentSize = appendFile, uint(fileInfo.Size())\n")]),
("lr-openhelper","C37 C40",0,[(R,"		appendFile, err := os.OpenFile(server.aofFilename, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)\n		if err != nil {\n			log.Fatal(\"failed to open append only file\", zap.Error(err))\n		}\n","		appendFile := openAppendOnlyFile(config.AofFilename)\n"),(R,"func (s *Server) Run()","func openAppendOnlyFile(name string) *os.File {\n	file, err := os.OpenFile(name, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)\n	if err != nil {\n		log.Fatal(\"failed to open append only file\", zap.Error(err))\n	}\n\n	return file\n}\n\nfunc (s *Server) Run()")]),
("lr-logset","C37 C40",0,[(L,"		metisLogger := logger.NewJSONLogger(opts...)\n","		metisLogger := newLogger(opts)\n"),(L,"func InitLogger","func newLogger(opts []logger.Option) *zap.Logger {\n	return logger.NewJSONLogger(opts...)\n}\n\nfunc InitLogger")]),
("lr-loading","C37 C40",0,[(A,"	srv.loading = true\n	defer func() { srv.loading = false }()\n",""),(R,"		loadAppendOnlyFile(s)\n","		s.loading = true\n		loadAppendOnlyFile(s)\n		s.loading = false\n")]),
("lr-fakeclient","C37 C40",0,[(A,"	fakeClient := NewClient(srv, -1)\n	defer fakeClient.free()\n","	fakeClient := newFakeClient(srv)\n	defer fakeClient.free()\n"),(A,"// loadAppendOnlyFile replays","func newFakeClient(srv *Server) *Client {\n	return NewClient(srv, -1)\n}\n\n// loadAppendOnlyFile replays")]),
]
