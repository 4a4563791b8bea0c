R="server/server.go"
G="config/config.go"
L="log/log.go"
S="socket/socket.go"
T="server/tcp.go"
NS="		host:              config.Host,\n"
MUTS=[
("g-tag","C38",1,[(G,'`mapstructure:"requirepass"`','`mapstructure:"requirepassword"`')]),
("g-tag2","C38",1,[(G,'`mapstructure:"auto-aof-rewrite-percentage"`','`mapstructure:"auto-aof-rewrite-percent"`')]),
("g-const","C38",1,[(G,'TypeAppendFsyncNever       TypeAppnedFsync = "no"','TypeAppendFsyncNever       TypeAppnedFsync = "never"')]),
("g-dup","C38",1,[(G,'LogLevelWarn  LogLevel = "warn"','LogLevelWarn  LogLevel = "warning"')]),
("g-size","C38",1,[(G,'		config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")\n\n		viper.Watch','		viper.Watch')]),
("g-sizekey","C38",1,[(G,'		config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")\n\n		viper.Watch','		config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-minsize")\n\n		viper.Watch'),(G,'			config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")\n		})','			config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-minsize")\n		})')]),
("g-sizeuint","C38",1,[(G,'		config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")\n\n		viper.Watch','		config.AofRewriteMinSize = viper.GetUint("auto-aof-rewrite-min-size")\n\n		viper.Watch')]),
("g-file","C38",1,[(G,'viper.SetConfigFile(configFile)','viper.SetConfigFile("config.toml")')]),
("g-sizecond","C38",1,[(G,'		config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")\n\n		viper.Watch','		if config.AofRewritePercent == 0 {\n			config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")\n		}\n\n		viper.Watch')]),
("g-swap","C38",1,[(R,"		aofRewritePercent: config.AofRewritePercent,\n		aofRewriteMinSize: config.AofRewriteMinSize,\n","		aofRewritePercent: config.AofRewriteMinSize,\n		aofRewriteMinSize: config.AofRewritePercent,\n")]),
("g-nomin","C38",1,[(R,"		aofRewriteMinSize: config.AofRewriteMinSize,\n","")]),
("g-dbs","C38",1,[(R,"	if config.DatabaseNum > 0 {","	if config.DatabaseNum > defaultDBNum {")]),
("g-dbs0","C38",1,[(R,"	if config.DatabaseNum > 0 {","	if config.DatabaseNum >= 0 {")]),
("g-dbs1","C38",1,[(R,"	for i := 0; i < dbNum; i++ {","	for i := 1; i < dbNum; i++ {")]),
("g-dbid","C38",1,[(R,"database.NewDatabase(i)","database.NewDatabase(i + 1)")]),
("g-port","C38",1,[(S,"	addr := &syscall.SockaddrInet4{Port: int(port)}\n	copy(addr.Addr[:], ipAddr)\n	if err := syscall.Bind(","	addr := &syscall.SockaddrInet4{Port: int(int16(port))}\n	copy(addr.Addr[:], ipAddr)\n	if err := syscall.Bind(")]),
("g-addr","C38",1,[(S,"	addr := &syscall.SockaddrInet4{Port: int(port)}\n	copy(addr.Addr[:], ipAddr)\n	if err := syscall.Bind(","	addr := &syscall.SockaddrInet4{Port: int(port)}\n	if err := syscall.Bind(")]),
("g-addrcond","C38",1,[(S,"	addr := &syscall.SockaddrInet4{Port: int(port)}\n	copy(addr.Addr[:], ipAddr)\n	if err := syscall.Bind(","	addr := &syscall.SockaddrInet4{Port: int(port)}\n	if !ipAddr.IsLoopback() {\n		copy(addr.Addr[:], ipAddr)\n	}\n	if err := syscall.Bind(")]),
("g-host","C38",1,[(T,"fd.Bind(ip, port)","fd.Bind(\"0.0.0.0\", port)")]),
("g-port2","C38",1,[(R,"		port:              config.Port,\n","		port:              config.Port & 0x7fff,\n")]),
("g-level","C38",1,[(L,"logger.WithWarnLevel()","logger.WithErrorLevel()")]),
("g-levelmiss","C38",1,[(L,"		case config.LogLevelDebug:\n			opts = append(opts, logger.WithDebugLevel())\n","")]),
("g-logfile","C38",1,[(L,"	if cfg.LogFilepath != \"\" {","	if cfg.LogFilepath != \"\" && cfg.LogLevel != config.LogLevelDebug {")]),
("g-logfile2","C38",1,[(L,"logger.WithFileRotationP(cfg.LogFilepath)","logger.WithFileRotationP(\"./logs/metis.log\")")]),
("g-minswap","C38",1,[(R,"srv.aofCurrentSize > srv.aofRewriteMinSize {","srv.aofCurrentSize < srv.aofRewriteMinSize {")]),
("g-minbase","C38",1,[(R,"srv.aofCurrentSize > srv.aofRewriteMinSize {","srv.aofCurrentSize > srv.aofRewriteBaseSize {")]),
("g-pctzero","C38",1,[(R,"		srv.aofRewritePercent > 0 && srv.aofC","		srv.aofC")]),
("g-never","C38",1,[(R,"			rewriteAppendOnlyFileBackground(srv)\n","			log.Info(\"the log has grown\")\n")]),
("g-only","C38",1,[(R,"		srv.aofRewritePercent > 0 && srv.aofC","		srv.aofRewritePercent > 0 && len(srv.clients) == 0 && srv.aofC")]),
# refactorings
("gr-ctor","C38",0,[(R,"		aofRewritePercent: config.AofRewritePercent,\n		aofRewriteMinSize: config.AofRewriteMinSize,\n",""),(R,"	server.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))\n\n	if","	server.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))\n	server.configureRewrite(config)\n\n	if"),(R,"func (s *Server) Run()","func (s *Server) configureRewrite(config *config.Config) {\n	s.aofRewritePercent = config.AofRewritePercent\n	s.aofRewriteMinSize = config.AofRewriteMinSize\n}\n\nfunc (s *Server) Run()")]),
("gr-dbs","C38",0,[(R,"	server.dbs = make([]*database.Databse, dbNum)\n	for i := 0; i < dbNum; i++ {\n		server.dbs[i] = database.NewDatabase(i)\n	}\n","	server.dbs = make([]*database.Databse, dbNum)\n	for i := range server.dbs {\n		server.dbs[i] = database.NewDatabase(i)\n	}\n")]),
("gr-dbnum","C38",0,[(R,"	dbNum := defaultDBNum\n	if config.DatabaseNum > 0 {\n		dbNum = config.DatabaseNum\n	}\n","	dbNum := config.DatabaseNum\n	if dbNum <= 0 {\n		dbNum = defaultDBNum\n	}\n")]),
("gr-dbsapp","C38",0,[(R,"	server.dbs = make([]*database.Databse, dbNum)\n	for i := 0; i < dbNum; i++ {\n		server.dbs[i] = database.NewDatabase(i)\n	}\n","	for i := 0; i < dbNum; i++ {\n		server.dbs = append(server.dbs, database.NewDatabase(i))\n	}\n")]),
("gr-dbhelper","C38",0,[(R,"	server.dbs = make([]*database.Databse, dbNum)\n	for i := 0; i < dbNum; i++ {\n		server.dbs[i] = database.NewDatabase(i)\n	}\n","	server.dbs = newDatabases(dbNum)\n"),(R,"func (s *Server) Run()","func newDatabases(n int) []*database.Databse {\n	dbs := make([]*database.Databse, n)\n	for i := 0; i < n; i++ {\n		dbs[i] = database.NewDatabase(i)\n	}\n\n	return dbs\n}\n\nfunc (s *Server) Run()")]),
("gr-level","C38",0,[(L,"		switch cfg.LogLevel {\n		case config.LogLevelDebug:\n			opts = append(opts, logger.WithDebugLevel())\n		case config.LogLevelInfo:\n			opts = append(opts, logger.WithInfoLevel())\n		case config.LogLevelWarn:\n			opts = append(opts, logger.WithWarnLevel())\n		case config.LogLevelError:\n			opts = append(opts, logger.WithErrorLevel())\n		default:\n			opts = append(opts, logger.WithInfoLevel())\n		}\n","		opts = append(opts, levelOption(cfg.LogLevel))\n"),(L,"func InitLogger","func levelOption(level config.LogLevel) logger.Option {\n	switch level {\n	case config.LogLevelDebug:\n		return logger.WithDebugLevel()\n	case config.LogLevelWarn:\n		return logger.WithWarnLevel()\n	case config.LogLevelError:\n		return logger.WithErrorLevel()\n	}\n\n	return logger.WithInfoLevel()\n}\n\nfunc InitLogger")]),
("gr-load","C38",0,[(G,'		if err := viper.Unmarshal(&config); err != nil {\n			log.Fatalln("failed to unmarshal from config:", err)\n		}\n\n		config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")\n\n		viper.Watch','		decode()\n\n		viper.Watch'),(G,'			if err := viper.Unmarshal(&config); err != nil {\n				log.Fatalln("failed to unmarshal from config:", err)\n			}\n\n			config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")\n		})','			decode()\n		})'),(G,'func LoadConfig','func decode() {\n	if err := viper.Unmarshal(&config); err != nil {\n		log.Fatalln("failed to unmarshal from config:", err)\n	}\n\n	config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")\n}\n\nfunc LoadConfig')]),
("gr-bind","C38",0,[(S,"	addr := &syscall.SockaddrInet4{Port: int(port)}\n	copy(addr.Addr[:], ipAddr)\n	if err := syscall.Bind(int(fd), addr); err != nil {","	if err := syscall.Bind(int(fd), sockAddr(ipAddr, port)); err != nil {"),(S,"func (fd FD) Bind","func sockAddr(ip net.IP, port uint16) *syscall.SockaddrInet4 {\n	addr := &syscall.SockaddrInet4{Port: int(port)}\n	copy(addr.Addr[:], ip)\n\n	return addr\n}\n\nfunc (fd FD) Bind")]),
("gr-cron","C38",0,[(R,"	if srv.backgroundTaskTypeAtomic.Load() == uint32(TypeBackgroundTaskNone) &&\n		srv.aofRewritePercent > 0 && srv.aofCurrentSize > srv.aofRewriteMinSize {\n		base := srv.aofRewriteBaseSize\n		if base == 0 {\n			base = 1\n		}\n\n		growth := (srv.aofCurrentSize * 100 / base) - 100\n		if growth >= srv.aofRewritePercent {\n			rewriteAppendOnlyFileBackground(srv)\n		}\n	}\n","	if shouldRewrite(srv) {\n		rewriteAppendOnlyFileBackground(srv)\n	}\n"),(R,"func databasesCron","func shouldRewrite(srv *Server) bool {\n	if srv.backgroundTaskTypeAtomic.Load() != uint32(TypeBackgroundTaskNone) {\n		return false\n	}\n\n	if srv.aofRewritePercent == 0 || srv.aofCurrentSize <= srv.aofRewriteMinSize {\n		return false\n	}\n\n	base := srv.aofRewriteBaseSize\n	if base == 0 {\n		base = 1\n	}\n\n	return srv.aofCurrentSize*100/base-100 >= srv.aofRewritePercent\n}\n\nfunc databasesCron")]),
]
