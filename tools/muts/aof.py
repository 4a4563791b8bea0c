A="server/aof.go"; S="server/server.go"
SY='''	if err := aofFile.Sync(); err != nil {
		return errors.Wrap(err, "failed to fsync temp file")
	}

'''
REN='''	if err := os.Rename(tmpAofFilename, srv.aofFilename); err != nil {
		return errors.Wrap(err, "failed to rename temp file")
	}

'''
CL='''	if srv.aofFile != nil {
		srv.aofFile.Close()
	}

	srv.aofCurrentSize'''
FL='''	// everything in the AOF buffer is in the AOF rewrite buffer, too
	flushAppendOnlyFile(srv)

'''
RP='''	if err := replaceAppendOnlyFile(srv, tmpAofFilename); err != nil {
		log.Error("failed to replace append only file, keep the old one", zap.Error(err))
	}

'''
AP='''	// append AOF rewrite buffer to temp file
	if srv.aofRewriteBuf.Len() > 0 {
		if _, err := aofFile.WriteString(srv.aofRewriteBuf.String()); err != nil {
			return errors.Wrap(err, "failed to write to temp file")
		}
	}

'''
MUTS=[
("a-nosync","C21",1,[(A,SY,"")]),
("a-syncafter","C21",1,[(A,SY,""),(A,REN,REN+SY)]),
("a-order","C21",1,[(A,AP,""),(A,REN,REN+AP)]),
("a-closefirst","C21",1,[(A,REN,""),(A,CL,CL.replace("	srv.aofCurrentSize",REN+"	srv.aofCurrentSize"))]),
("a-noappend","C21",1,[(A,"os.O_APPEND|os.O_WRONLY, 0644)","os.O_WRONLY, 0644)")]),
("a-ignoreerr","C21",1,[(A,'''		if _, err := aofFile.WriteString(srv.aofRewriteBuf.String()); err != nil {
			return errors.Wrap(err, "failed to write to temp file")
		}
''','''		_, _ = aofFile.WriteString(srv.aofRewriteBuf.String())
''')]),
("a-noflush","C22",1,[(A,FL,"")]),
("a-flushafter","C22",1,[(A,FL+RP,RP+FL)]),
("a-norwreset","C22",1,[(A,'''	srv.aofRewriteBuf.Reset()
}''',"}")]),
("a-rwresetfirst","C22 C21",1,[(A,RP,"	srv.aofRewriteBuf.Reset()\n"+RP)]),
("a-resetonok","C22",1,[(A,'''	srv.aofRewriteBuf.Reset()
}''',"}"),(A,"	srv.aofUnsynced = false\n\n	return nil","	srv.aofUnsynced = false\n	srv.aofRewriteBuf.Reset()\n\n	return nil")]),
("a-bufreset","C22 C16",1,[(A,FL,"	srv.aofBuf.Reset()\n")]),
("a-state-early","C24",1,[(A,"	defer srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))\n\n",""),(A,"	srv.aofRewriteDoneCh <- tmpFile.Name()","	srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))\n	srv.aofRewriteDoneCh <- tmpFile.Name()")]),
("a-state-missing","C24",1,[(A,"	defer srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))\n\n","")]),
("a-state-onok","C24",1,[(A,"	defer srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))\n\n",""),(A,RP,'''	if err := replaceAppendOnlyFile(srv, tmpAofFilename); err != nil {
		log.Error("failed to replace append only file, keep the old one", zap.Error(err))
		srv.aofRewriteBuf.Reset()

		return
	}

	srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))
''')]),
("a-nocas","C24",0,[(A,"	if !srv.backgroundTaskTypeAtomic.CompareAndSwap(uint32(TypeBackgroundTaskNone), uint32(TypeBackgroundTaskAOFRewrite)) {\n		return\n	}\n","	srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskAOFRewrite))\n")]),
("a-loadstore","C24",0,[(A,"	if !srv.backgroundTaskTypeAtomic.CompareAndSwap(uint32(TypeBackgroundTaskNone), uint32(TypeBackgroundTaskAOFRewrite)) {\n		return\n	}\n","	if srv.backgroundTaskTypeAtomic.Load() != uint32(TypeBackgroundTaskNone) {\n		return\n	}\n	srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskAOFRewrite))\n")]),
("a-unsynced-missing","C17",1,[(A,"		srv.aofUnsynced = true\n","")]),
("a-unsynced-clear","C17",1,[(A,"		srv.aofLastFsyncTime = now\n		srv.aofUnsynced = false\n	}","		srv.aofLastFsyncTime = now\n	}\n	srv.aofUnsynced = false")]),
("a-lasttime","C17",1,[(A,"		srv.aofLastFsyncTime = now\n		srv.aofUnsynced = false\n	}","		srv.aofUnsynced = false\n	}\n	srv.aofLastFsyncTime = now")]),
("a-everyhour","C17",1,[(A,"> time.Second)","> time.Minute)")]),
("a-asyncalways","C16 C17",1,[(A,"		case config.TypeAppendFsyncEverySecond:\n			aofFile","		default:\n			aofFile"),(A,'''		case config.TypeAppendFsyncAlways:
			if err := srv.aofFile.Sync(); err != nil {
				log.Panic("failed to fsync the AOF file", zap.Error(err))
			}
''','')]),
("a-policyno","C17",1,[(A,"		(srv.aofFsync == config.TypeAppendFsyncEverySecond && now","		(srv.aofFsync != config.TypeAppendFsyncAlways && now"),(A,"		case config.TypeAppendFsyncEverySecond:\n			aofFile","		default:\n			aofFile")]),
("a-syncerr","C17",1,[(A,'''			if err := srv.aofFile.Sync(); err != nil {
				log.Panic("failed to fsync the AOF file", zap.Error(err))
			}
''','''			if err := srv.aofFile.Sync(); err != nil {
				log.Error("failed to fsync the AOF file", zap.Error(err))
			}
''')]),
("a-gosyncerr","C17",1,[(A,'''err != nil && !errors.Is(err, os.ErrClosed) {
					log.Panic(''','''err != nil && !errors.Is(err, os.ErrClosed) {
					log.Error(''')]),
("a-writeerr","C16",1,[(A,'''			log.Fatal("failed to write to aof file", zap.Error(err))''','''			log.Error("failed to write to aof file", zap.Error(err))''')]),
("a-noflushbuf","C16",1,[(A,"	if srv.aofBuf.Len() > 0 {","	if srv.aofBuf.Len() > 4096 {")]),
("a-tempdir","C21",1,[(A,"os.CreateTemp(filepath.Dir(srv.aofFilename), ",'os.CreateTemp("", '),(A,'	"path/filepath"\n','')]),
("a-sendfirst","C21",1,[(A,"	// dump db from memory","	srv.aofRewriteDoneCh <- tmpFile.Name()\n	// dump db from memory"),(A,"	}\n\n	srv.aofRewriteDoneCh <- tmpFile.Name()\n","	}\n")]),
("a-nosend","C24",1,[(A,'''		if db.Dict.Size() == 0 {
			continue''','''		if db.Dict.Size() == 0 {
			return''')]),
("a-senddir","C21",1,[(A,"	srv.aofRewriteDoneCh <- tmpFile.Name()","	srv.aofRewriteDoneCh <- srv.aofFilename")]),
("a-writeerrrw","C21",1,[(A,'''			if err != nil {
				log.Panic("failed to write to AOF file", zap.Error(err))
			}
''','''			if err != nil {
				log.Error("failed to write to AOF file", zap.Error(err))
			}
''')]),
("a-keepold","C21",1,[(A,"	srv.aofFile = aofFile\n","	_ = aofFile\n")]),
("a-removed","C21",1,[(A,REN,"	os.Remove(srv.aofFilename)\n"+REN)]),
("a-trunc","C21",1,[(A,REN,"	srv.aofFile.Truncate(0)\n"+REN)]),
("a-errremoves","C21",1,[(A,'''		log.Error("failed to replace append only file, keep the old one", zap.Error(err))
''','''		log.Error("failed to replace append only file, keep the old one", zap.Error(err))
		srv.aofFile.Close()
''')]),
("a-launch2","C24",1,[(A,"	go rewriteAppendOnlyFile(tmpDBs, srv)\n","	go rewriteAppendOnlyFile(tmpDBs, srv)\n	go rewriteAppendOnlyFile(tmpDBs, srv)\n")]),
("a-off","C24",1,[("server/commandserver.go","",""),(S,"srv.aofRewritePercent > 0 && srv.aofCurrentSize > srv.aofRewriteMinSize","srv.aofRewritePercent > 0 && srv.aofCurrentSize >= srv.aofRewriteMinSize")]),
# refactorings
("r-helper","C16 C17 C21 C22 C24",0,[(A,SY+'''	fileInfo, err := aofFile.Stat()
	if err != nil {
		return errors.Wrap(err, "failed to stat temp file")
	}
''','''	fileInfo, err := syncAndStat(aofFile)
	if err != nil {
		return err
	}
'''),(A,"",'''
func syncAndStat(f *os.File) (os.FileInfo, error) {
	if err := f.Sync(); err != nil {
		return nil, errors.Wrap(err, "failed to fsync temp file")
	}

	info, err := f.Stat()

	return info, errors.Wrap(err, "failed to stat temp file")
}
''')]),
("r-nodefer","C21 C22 C24",0,[(A,"	defer srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))\n\n",""),(A,"	srv.aofRewriteBuf.Reset()\n}","	srv.aofRewriteBuf.Reset()\n	srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))\n}")]),
("r-write","C16 C17 C21 C22",0,[(A,"nWritten, err := srv.aofFile.WriteString(aofStr)","nWritten, err := srv.aofFile.Write([]byte(aofStr))")]),
("r-switch","C16 C17",0,[(A,'''	if srv.aofFsync == config.TypeAppendFsyncAlways ||
		(srv.aofFsync == config.TypeAppendFsyncEverySecond && now.Sub(srv.aofLastFsyncTime) > time.Second) {
		switch''','''	due := false
	switch srv.aofFsync {
	case config.TypeAppendFsyncAlways:
		due = true
	case config.TypeAppendFsyncEverySecond:
		due = now.After(srv.aofLastFsyncTime.Add(time.Second))
	}

	if due {
		switch''')]),
("r-select","C21 C22 C24",0,[(S,'''	if len(srv.aofRewriteDoneCh) > 0 {
		aofRewriteDoneCallback(srv)
	}
''','''	select {
	case tmp := <-srv.aofRewriteDoneCh:
		aofRewriteDoneCallback(srv, tmp)
	default:
	}
'''),(A,"func aofRewriteDoneCallback(srv *Server) {","func aofRewriteDoneCallback(srv *Server, tmpAofFilename string) {"),(A,"	tmpAofFilename := <-srv.aofRewriteDoneCh\n","")]),
("r-bufio","C21 C24",0,[(A,"func rewriteStringObject(file *os.File, ","func rewriteStringObject(file io.StringWriter, "),(A,"func rewriteListObject(file *os.File, ","func rewriteListObject(file io.StringWriter, "),(A,"func rewriteHashObject(file *os.File, ","func rewriteHashObject(file io.StringWriter, "),(A,"func rewriteSetObject(file *os.File, ","func rewriteSetObject(file io.StringWriter, "),(A,"func rewriteZsetObject(file *os.File, ","func rewriteZsetObject(file io.StringWriter, "),
 (A,"	defer tmpFile.Close()\n","	defer tmpFile.Close()\n	out := bufio.NewWriter(tmpFile)\n"),
 (A,"err = rewriteStringObject(tmpFile","err = rewriteStringObject(out"),(A,"err = rewriteListObject(tmpFile","err = rewriteListObject(out"),(A,"err = rewriteHashObject(tmpFile","err = rewriteHashObject(out"),(A,"err = rewriteSetObject(tmpFile","err = rewriteSetObject(out"),(A,"err = rewriteZsetObject(tmpFile","err = rewriteZsetObject(out"),
 (A,'tmpFile.WriteString(catAppendOnlyGenericCommand([]string{"select"','out.WriteString(catAppendOnlyGenericCommand([]string{"select"'),
 (A,'tmpFile.WriteString(catAppendOnlyGenericCommand([]string{"expireat"','out.WriteString(catAppendOnlyGenericCommand([]string{"expireat"'),
 (A,"	srv.aofRewriteDoneCh <- tmpFile.Name()",'''	if err := out.Flush(); err != nil {
		log.Panic("failed to write to AOF file", zap.Error(err))
	}
	srv.aofRewriteDoneCh <- tmpFile.Name()''')]),
]
# the same without the flush
m=[x for x in MUTS if x[0]=="r-bufio"][0]
MUTS.append(("a-bufio-noflush","C21",1,m[3][:-1]))
MUTS=[x for x in MUTS if x[0]!="a-off"]
