A="server/aof.go"
RF="		if _, err := io.ReadFull(reader, arg); err != nil {\n"
MUTS=[
("l-runelen","C18",1,[(A,"sb.WriteString(strconv.Itoa(len(arg)))","sb.WriteString(strconv.Itoa(len([]rune(arg))))")]),
("l-nocrlf","C18",1,[(A,'		sb.WriteString(arg)\n		sb.WriteString("\\r\\n")','		sb.WriteString(arg)\n		sb.WriteString("\\n")')]),
("l-skipempty","C18",1,[(A,'	for _, arg := range args {\n		sb.WriteString("$")','	for _, arg := range args {\n		if arg == "" {\n			continue\n		}\n		sb.WriteString("$")')]),
("l-trimarg","C18",1,[(A,"args[i] = bytesToString(arg[:argLen])","args[i] = bytesToString(bytes.TrimSpace(arg[:argLen]))")]),
("l-plus1","C18",1,[(A,"arg := make([]byte, argLen+2)","arg := make([]byte, argLen+1)")]),
("l-readshort","C18",1,[(A,"io.ReadFull(reader, arg); err","reader.Read(arg); err")]),
("l-sharedbuf","C18",1,[(A,"	args := make([]string, argc)\n	for i","	args := make([]string, argc)\n	arg := make([]byte, 1<<16)\n	for i"),(A,"		arg := make([]byte, argLen+2)\n","		arg = arg[:argLen+2]\n")]),
("l-lineread","C18",1,[(A,"		arg := make([]byte, argLen+2)\n","		line, err := readLine()\n		if err != nil {\n			return nil, size, err\n		}\n		arg := append([]byte(line), 13, 10)\n		_ = argLen\n"),(A,"		if _, err := io.ReadFull(reader, arg); err != nil {\n			if errors.Is(err, io.EOF) {\n				err = io.ErrUnexpectedEOF\n			}\n\n			return nil, size, err\n		}\n\n		size += int64(len(arg))\n","")]),
("l-noproc","C18",1,[(A,"		_ = cmd.proc(fakeClient)\n","		if len(args) <= cmd.arity || cmd.arity < 0 {\n			_ = cmd.proc(fakeClient)\n		}\n")]),
("l-args1","C18",1,[(A,"fakeClient.args = args","fakeClient.args = args[:len(args):len(args)]\n		if len(args) > 128 {\n			fakeClient.args = args[:128]\n		}")]),
("l-zeroarg","C18",1,[(A,"		if length < 0 {\n			return 0, errors","		if length <= 0 {\n			return 0, errors")]),
("l-stopunknown","C19",1,[(A,"			continue\n		}\n\n		fakeClient","			break\n		}\n\n		fakeClient")]),
("t-validup","C19",1,[(A,"		validUpTo += size\n\n		cmd :=","		cmd :="),(A,"		_ = cmd.proc(fakeClient)\n","		_ = cmd.proc(fakeClient)\n		validUpTo += size\n")]),
("t-size","C19",1,[(A,"		size += int64(len(buf))\n		if err","		if err"),(A,"		return bytesToString(bytes.TrimRight(buf","		size += int64(len(buf))\n\n		return bytesToString(bytes.TrimRight(buf")]),
("t-size2","C19",1,[(A,"size += int64(len(arg))","size += int64(argLen)")]),
("t-notrunc","C19",1,[(A,"			if err := os.Truncate(srv.aofFilename, validUpTo); err != nil {\n				log.Panic(\"failed to truncate aof file\", zap.Error(err))\n			}\n\n","")]),
("t-eof","C19",1,[(A,"			if errors.Is(err, io.EOF) {\n				err = io.ErrUnexpectedEOF\n			}\n\n","")]),
("t-anyerr","C19",1,[(A,"			if errors.Is(err, io.EOF) && size > 0 {\n				err = io.ErrUnexpectedEOF\n			}\n\n			return \"\", err","			if size > 0 {\n				err = io.ErrUnexpectedEOF\n			}\n\n			return \"\", err")]),
("t-breakerr","C19",1,[(A,"		if errors.Is(err, io.EOF) {\n			break\n		}\n\n		if errors.Is(err, io.ErrUn","		if err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {\n			break\n		}\n\n		if errors.Is(err, io.ErrUn")]),
("t-panic","C19",1,[(A,"			log.Warn(\"truncate incomplete","			log.Panic(\"truncate incomplete")]),
# refactorings
("r-appendargs","C18 C19",0,[(A,"	args := make([]string, argc)\n","	args := make([]string, 0, argc)\n"),(A,"args[i] = bytesToString(arg[:argLen])","args = append(args, string(arg[:argLen]))")]),
("r-trimsuffix","C18 C19",0,[(A,'bytesToString(bytes.TrimRight(buf, "\\r\\n"))','strings.TrimSuffix(string(buf), "\\r\\n")'),(A,"	\"bytes\"\n","")]),
("r-joinparse","C18 C19",0,[(A,'		if line == "" || line[0] != prefix {\n			return 0, errors.New("invalid aof file format")\n		}\n','		if len(line) < 1 {\n			return 0, errors.New("empty line in aof file")\n		}\n		if line[0] != prefix {\n			return 0, errors.New("invalid aof file format")\n		}\n')]),
("r-readstring","C18 C19",0,[(A,"		buf, err := reader.ReadBytes('\\n')","		buf, err := reader.ReadString('\\n')"),(A,'bytesToString(bytes.TrimRight(buf, "\\r\\n"))','strings.TrimRight(buf, "\\r\\n")'),(A,"	\"bytes\"\n","")]),
("r-crlfcheck","C18 C19",0,[(A,"		size += int64(len(arg))\n","		if arg[argLen] != '\\r' || arg[argLen+1] != '\\n' {\n			return nil, size, errors.New(\"invalid aof file format\")\n		}\n\n		size += int64(len(arg))\n")]),
("r-twobuf","C18 C19",0,[(A,"		arg := make([]byte, argLen+2)\n","		arg := make([]byte, argLen)\n"),(A,"		size += int64(len(arg))\n		args[i] = bytesToString(arg[:argLen])","		size += int64(argLen)\n		args[i] = bytesToString(arg)\n		if _, err := readLine(); err != nil {\n			return nil, size, err\n		}")]),
("r-eqeof","C18 C19",0,[(A,"		if errors.Is(err, io.EOF) {\n			break\n		}\n\n		if errors.Is(err, io.ErrUn","		if err == io.EOF {\n			break\n		}\n\n		if errors.Is(err, io.ErrUn")]),
("r-encfmt","C18",0,[(A,'	sb.WriteString("*")\n	sb.WriteString(strconv.Itoa(len(args)))\n	sb.WriteString("\\r\\n")','	sb.WriteString("*" + strconv.Itoa(len(args)) + "\\r\\n")')]),
("r-encidx","C18",0,[(A,"	for _, arg := range args {\n		sb.WriteString(\"$\")","	for i := 0; i < len(args); i++ {\n		arg := args[i]\n		sb.WriteString(\"$\")")]),
]
