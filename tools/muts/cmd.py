C="server/command.go";CC="server/commandconnection.go";H="server/commandhash.go";K="server/commandkey.go";L="server/commandlist.go";S="server/commandset.go";ST="server/commandstring.go";Z="server/commandzset.go";CL="server/client.go"
A="server/aof.go"
ALL="C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C22 C27 C34 C39 C41 C36 C01"
def DIE(k): return "	deleteIfEmpty(client, key, %s)\n"%k
MUTS=[
("m-authprefix","C05",1,[(CC,'client.srv.requirePassword == client.args[1]','strings.HasPrefix(client.srv.requirePassword, client.args[1])'),(CC,'import "strconv"','import (\n	"strconv"\n	"strings"\n)')]),
("m-authfold","C05",1,[(CC,'client.srv.requirePassword == client.args[1]','strings.EqualFold(client.srv.requirePassword, client.args[1])'),(CC,'import "strconv"','import (\n	"strconv"\n	"strings"\n)')]),
("m-authping","C05",1,[(C,'cmdName != "auth" {','cmdName != "auth" && cmdName != "ping" {')]),
("m-authpre","C05",1,[(C,'cmdName != "auth" {','!strings.HasPrefix("auth", cmdName[:1]) {')]),
("m-authkeep","C05",1,[(CC,'	client.authenticated = false\n\n','')]),
("m-authbulk","C05",1,[(C,'!client.authenticated &&','!client.authenticated && client.cmdType != CommandTypeInline &&')]),
("m-arity1","C06",1,[(C,'{"lrange", lRangeCommand, -4}','{"lrange", lRangeCommand, -3}')]),
("m-arity2","C06",1,[(C,'{"zscore", zScoreCommand, 3}','{"zscore", zScoreCommand, -2}')]),
("m-arity3","C06",1,[(C,'len(client.args) < -cmd.arity)','len(client.args) < -cmd.arity-1)')]),
("m-arity4","C06 C01",1,[(C,'{"setex", setExCommand, 4}','{"setex", setExCommand, -3}')]),
("m-zaddpair","C06",1,[(Z,"	if len(client.args)&1 != 0 {\n		return client.addReplyError(\"wrong number of arguments for 'zadd' command\")\n	}\n\n",""),(Z,"i < len(client.args); i += 2","i+1 < len(client.args); i += 2")]),
("m-wsarity","C06",1,[(CL,"withScoreIndex > 0 && len(c.args) > withScoreIndex","withScoreIndex > 0 && len(c.args) >= withScoreIndex")]),
("m-wt-set","C07",1,[(S,"	set, ok := value.(*datastruct.Set)\n	if !ok {\n		return nil, errWrongType\n	}\n\n	return set, nil\n}\n\nfunc getSetIfExist","	set, ok := value.(*datastruct.Set)\n	if !ok {\n		set = datastruct.NewSet(&database.DictType{})\n		dict.Set(key, set)\n	}\n\n	return set, nil\n}\n\nfunc getSetIfExist")]),
("m-wt-absent","C07",1,[(H,"func getHashIfExist(client *Client, key string) (*datastruct.Dict, error) {\n	// check if key expired\n	if _, err := expireIfNeeded(client, key); err != nil {\n		return nil, err\n	}\n\n	dict := client.db.Dict\n	value := dict.Get(key)\n	if value == nil {\n		return nil, errNotExist\n	}\n\n	hash, ok := value.(*datastruct.Dict)\n	if !ok {\n		return nil, errWrongType\n	}","func getHashIfExist(client *Client, key string) (*datastruct.Dict, error) {\n	// check if key expired\n	if _, err := expireIfNeeded(client, key); err != nil {\n		return nil, err\n	}\n\n	dict := client.db.Dict\n	value := dict.Get(key)\n	if value == nil {\n		return nil, errNotExist\n	}\n\n	hash, ok := value.(*datastruct.Dict)\n	if !ok {\n		return nil, errNotExist\n	}")]),
("m-wt-getset","C07",1,[(S,"	for i := 1; i < len(client.args); i++ {\n		set2, err := getSetIfExist(client, client.args[i])\n		if err != nil {\n			if errors.Is(err, errNotExist) {","	for i := 1; i < len(client.args); i++ {\n		set2, err := getSetIfExist(client, client.args[i])\n		if err != nil {\n			if errors.Is(err, errNotExist) || i > 1 && errors.Is(err, errWrongType) {")]),
("m-wt-get","C07 C01",1,[(ST,'	valueStr, ok := value.(string)\n	if !ok {\n		return client.addReplyError("value is not a string")\n	}\n\n','	valueStr := value.(string)\n')]),
("m-wt-pushrepl","C07",1,[(L,'	list, err := getQuickList(client, key)\n	if err != nil {\n		return client.addReplyError(err.Error())\n	}\n\n	for i := 2; i < len(client.args); i++ {\n		list.PushFront','	list, err := getQuickList(client, key)\n	if err == errWrongType {\n		list = datastruct.NewQuicklist()\n		client.db.Dict.Set(key, list)\n	} else if err != nil {\n		return client.addReplyError(err.Error())\n	}\n\n	for i := 2; i < len(client.args); i++ {\n		list.PushFront')]),
("m-zaddpart","C08",1,[(Z,'		elements = append(elements, datastruct.ZsetElement{Member: client.args[i+1], Score: score})\n	}\n\n	zset, err := getZset(client, key)\n	if err != nil {\n		return client.addReplyError(err.Error())\n	}\n','		elements = append(elements, datastruct.ZsetElement{Member: client.args[i+1], Score: score})\n	}\n'),(Z,"	elements := make(","	zset, err := getZset(client, key)\n	if err != nil {\n		return client.addReplyError(err.Error())\n	}\n\n	elements := make(")]),
("m-delwt","C08",1,[(K,"	key := client.args[1]\n\n	expireInt, err := parseExpire(client.args[2], 2*maxExpire)","	key := client.args[1]\n	_ = client.db.Expire.Delete(key)\n\n	expireInt, err := parseExpire(client.args[2], 2*maxExpire)")]),
("m-zadd8","C08 C34",1,[(Z,"	if len(client.args)&1 != 0 {\n		return client.addReplyError(\"wrong number of arguments for 'zadd' command\")\n	}\n\n	key := client.args[1]\n","	key := client.args[1]\n	if _, err := getZset(client, key); err != nil {\n		return client.addReplyError(err.Error())\n	}\n	if len(client.args)&1 != 0 {\n		return client.addReplyError(\"wrong number of arguments for 'zadd' command\")\n	}\n\n")]),
("m-setexerr","C08",1,[(ST,"	expireInt, err := parseExpire(client.args[2], maxExpire)\n","	client.db.Dict.Set(key, value)\n	expireInt, err := parseExpire(client.args[2], maxExpire)\n")]),
("m-db0","C09",1,[(ST,"	value := client.db.Dict.Get(key)\n","	value := client.srv.dbs[0].Dict.Get(key)\n")]),
("m-db0exp","C09",1,[(C,"expireObj := client.db.Expire.Find(key)","expireObj := client.srv.dbs[0].Expire.Find(key)")]),
("m-dbwrap","C09",1,[(CC,"	if dbIndex < 0 || dbIndex >= len(client.srv.dbs) {","	if dbIndex < 0 {\n		dbIndex += len(client.srv.dbs)\n	}\n\n	if dbIndex < 0 || dbIndex >= len(client.srv.dbs) {")]),
("m-dbhang","C09",1,[(CC,"	if dbIndex < 0 ||","	client.db = client.srv.dbs[0]\n	if dbIndex < 0 ||")]),
("m-dball","C09",1,[(CC,"	client.db = client.srv.dbs[dbIndex]\n","	client.db = client.srv.dbs[dbIndex]\n	for _, c := range client.srv.clients {\n		if c.fd == client.fd {\n			continue\n		}\n		if c.db == nil || len(c.args) == 0 {\n			c.db = client.db\n		}\n	}\n")]),
("m-exphget","C10",1,[(H,"	dict := client.db.Dict\n	value := dict.Get(key)\n	if value == nil {\n		return nil, errNotExist\n	}","	value := client.db.Dict.Get(key)\n	if value == nil {\n		return nil, errNotExist\n	}"),(H,"func getHashIfExist(client *Client, key string) (*datastruct.Dict, error) {\n	// check if key expired\n	if _, err := expireIfNeeded(client, key); err != nil {\n		return nil, err\n	}\n\n","func getHashIfExist(client *Client, key string) (*datastruct.Dict, error) {\n")]),
("m-expttl","C10",1,[(K,"func ttlCommand(client *Client) error {\n	key := client.args[1]\n\n	// check if key expired\n	if _, err := expireIfNeeded(client, key); err != nil {\n		return client.addReplyErrorf(\"expireIfNeeded error: %v\", err)\n	}\n\n","func ttlCommand(client *Client) error {\n	key := client.args[1]\n\n")]),
("m-expslack","C10",1,[(C,"if when < time.Now().UnixMilli() {","if when < time.Now().UnixMilli()-1000 {")]),
("m-exptrunc","C10",1,[(C,"if when < time.Now().UnixMilli() {","if when/1000 < time.Now().Unix() {")]),
("m-expkeys","C10",1,[(K,'			if !expired {\n				keys = append(keys, key)\n			}','			if !expired || pattern == "*" {\n				keys = append(keys, key)\n			}')]),
("m-exprand","C10",1,[(ST,"		if !expired {\n			break\n		}","		if !expired || client.db.Dict.Size() <= 1 {\n			break\n		}")]),
("m-expextend","C10",1,[(K,'	expireInt, err := parseExpire(client.args[2], 2*maxExpire)\n	if err != nil {\n		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)\n	}\n\n	// check if key expired\n	if _, err := expireIfNeeded(client, key); err != nil {\n		return client.addReplyErrorf("expireIfNeeded error: %v", err)\n	}\n\n','	expireInt, err := parseExpire(client.args[2], 2*maxExpire)\n	if err != nil {\n		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)\n	}\n\n')]),
("m-expfirst","C10",1,[(S,"	set, err := getSetIfExist(client, client.args[1])\n	if err != nil {\n		if errors.Is(err, errNotExist) {\n			return client.addReplyEmpty()\n		}\n\n		return client.addReplyError(err.Error())\n	}\n\n	for i := 2; i < len(client.args); i++ {\n		set2, err := getSetIfExist(client, client.args[i])\n		if err != nil {\n			if errors.Is(err, errNotExist) {\n				return","	first, _ := client.db.Dict.Get(client.args[1]).(*datastruct.Set)\n	set, err := getSetIfExist(client, client.args[1])\n	if err != nil {\n		if errors.Is(err, errNotExist) {\n			if first != nil {\n				return client.addReplySet(first)\n			}\n			return client.addReplyEmpty()\n		}\n\n		return client.addReplyError(err.Error())\n	}\n\n	for i := 2; i < len(client.args); i++ {\n		set2, err := getSetIfExist(client, client.args[i])\n		if err != nil {\n			if errors.Is(err, errNotExist) {\n				return")]),
("m-delttl","C11",1,[(K,"		_ = client.db.Expire.Delete(key)\n		if client.db.Dict.Delete(key) == nil {","		if client.db.Dict.Delete(key) == nil {")]),
("m-emptyttl","C11",1,[(C,"	if size == 0 {\n		_ = client.db.Dict.Delete(key)\n		_ = client.db.Expire.Delete(key)\n","	if size == 0 {\n		_ = client.db.Dict.Delete(key)\n")]),
("m-setttl","C11",1,[(ST,"	_ = client.db.Expire.Delete(key)\n	client.db.Dict.Set(key, value)\n","	if _, ok := client.db.Dict.Get(key).(string); ok {\n		_ = client.db.Expire.Delete(key)\n	}\n	client.db.Dict.Set(key, value)\n")]),
("m-expmissing","C11",1,[(K,"	if client.db.Dict.Find(key) == nil {\n		return client.addReplyInt(0)\n	}\n\n	client.db.Expire.Set(key, expireInt*1000)\n","	if expireInt <= 0 && client.db.Dict.Find(key) == nil {\n		return client.addReplyInt(0)\n	}\n\n	client.db.Expire.Set(key, expireInt*1000)\n")]),
("m-expdict","C11",1,[(C,"			_ = client.db.Dict.Delete(key)\n			_ = client.db.Expire.Delete(key)\n			propagate","			_ = client.db.Dict.Delete(key)\n			if client.srv.aofEnable {\n				_ = client.db.Expire.Delete(key)\n			}\n			propagate")]),
("m-ttldel","C12",1,[(K,"	ttl := (when - time.Now().UnixMilli()) / 1000\n","	ttl := (when - time.Now().UnixMilli()) / 1000\n	if ttl <= 0 {\n		_ = client.db.Expire.Delete(key)\n	}\n")]),
("m-getset","C12 C34",1,[(L,'func lLenCommand(client *Client) error {\n	key := client.args[1]\n\n	list, err := getQuickListIfExist(client, key)','func lLenCommand(client *Client) error {\n	key := client.args[1]\n\n	list, err := getQuickList(client, key)')]),
("m-unionplace","C12",1,[(S,"		set = set.Union(set2)\n","		if set.Size() == 0 {\n			set = set2\n			continue\n		}\n		for _, m := range set.Range() {\n			set2.Add(m)\n		}\n		set = set2\n")]),
("m-lrangepop","C12",1,[(L,'	v := list.Get(index)\n','	v := list.Get(index)\n	if index == 0 {\n		v = list.PopFront()\n		list.PushFront(v)\n	}\n')]),
("m-hdeldirty","C13",1,[(H,"			deleted++\n			client.srv.dirty++\n","			deleted++\n")]),
("m-expdirty","C13",1,[(K,"	client.db.Expire.Set(key, when)\n	client.srv.dirty++\n","	client.db.Expire.Set(key, when)\n	if expireInt > 0 {\n		client.srv.dirty++\n	}\n")]),
("m-callerr","C13",1,[(C,"	if client.srv.aofEnable && dirty != 0 {","	if err == nil && client.srv.aofEnable && dirty != 0 {")]),
("m-saddold","C13",1,[(H,"		if hash.Set(client.args[i], client.args[i+1]) {\n			created++\n		}\n		client.srv.dirty++\n","		if hash.Set(client.args[i], client.args[i+1]) {\n			created++\n			client.srv.dirty++\n		}\n")]),
("m-zremdirty","C13",1,[(Z,"	deletedElements := zset.DeleteRangeByScore(min, max)\n	client.srv.dirty += int64(len(deletedElements))\n","	deletedElements := zset.DeleteRangeByScore(min, max)\n	client.srv.dirty += int64(len(deletedElements) / 2)\n")]),
("m-dirtybalance","C13",1,[(C,"	if client.srv.aofEnable && dirty != 0 {","	if client.srv.aofEnable && dirty > 1 {")]),
("m-logexpire","C13 C14",1,[(C,"			propagateExpire(client.srv, client.db.ID, key)\n","			if client.fd >= 0 && len(client.args) > 1 && client.args[1] == key {\n				propagateExpire(client.srv, client.db.ID, key)\n			}\n")]),
("m-spoplog","C14",1,[(S,"	client.args = []string{\"srem\", key, randomMember.(string)}\n","	if set.Size() > 0 {\n		client.args = []string{\"srem\", key, randomMember.(string)}\n	}\n")]),
("m-spopkey","C14",1,[(S,"	client.args = []string{\"srem\", key, randomMember.(string)}\n","	client.args = []string{\"sadd\", key, randomMember.(string)}\n")]),
("m-loadexpire","C14",1,[(C,"	if client.srv.loading {\n		return false, nil\n	}\n","	if client.srv.loading && len(client.args) > 2 {\n		return false, nil\n	}\n")]),
("m-logdb","C15",1,[(C,"feedAppendOnlyFile(client.srv, cmd, client.db.ID, client.args)","feedAppendOnlyFile(client.srv, cmd, client.srv.dbs[0].ID, client.args)")]),
("m-expiredb","C15",1,[(C,"propagateExpire(client.srv, client.db.ID, key)","propagateExpire(client.srv, client.srv.dbs[0].ID, key)")]),
("m-hdelempty","C34",1,[(H,"	deleteIfEmpty(client, key, hash.Size())\n","	if deleted == 1 {\n		deleteIfEmpty(client, key, hash.Size())\n	}\n")]),
("m-zremempty","C34",1,[(Z,"	deletedElements := zset.DeleteRangeByRank(start, stop)\n	client.srv.dirty += int64(len(deletedElements))\n	deleteIfEmpty(client, key, zset.Size())\n","	deletedElements := zset.DeleteRangeByRank(start, stop)\n	client.srv.dirty += int64(len(deletedElements))\n	if start == 0 {\n		deleteIfEmpty(client, key, zset.Size())\n	}\n")]),
("m-rpopempty","C34",1,[(L,"	value := list.PopBack().(string)\n	deleteIfEmpty(client, key, int64(list.Len()))\n","	deleteIfEmpty(client, key, int64(list.Len()))\n	value := list.PopBack().(string)\n")]),
("m-maxexp","C39",1,[(K,"const maxExpire = math.MaxInt64 / 1000 / 4","const maxExpire = math.MaxInt64 / 1000")]),
("m-maxlow","C39",1,[(K,"	if expireInt > max || expireInt < -max {","	if expireInt > max {")]),
("m-maxat","C39",1,[(K,"parseExpire(client.args[2], 2*maxExpire)","parseExpire(client.args[2], 8*maxExpire)")]),
("m-two","C03",1,[(H,"	deleteIfEmpty(client, key, hash.Size())\n","	deleteIfEmpty(client, key, hash.Size())\n	if hash.Size() == 0 && deleted > 1 {\n		return nil\n	}\n")]),
("m-errdrop","C03",1,[(K,"				return client.addReplyErrorf(\"invalid pattern: %s, error: %v\", pattern, err)","				return err")]),
("m-arrerr","C03 C04",1,[(CL,"	for _, element := range elements {\n		if err := c.addReplyBulkString(element.Member); err != nil {","	for _, element := range elements {\n		if element.Member == \"\" {\n			continue\n		}\n		if err := c.addReplyBulkString(element.Member); err != nil {")]),
("m-wslen","C04 C03",1,[(CL,"		respArrayLen = len(elements) * 2\n","		respArrayLen = len(elements)\n")]),
("m-crlf","C04",1,[(CL,'return c.addReplyStringf("-ERR %s\\r\\n", lineBreakReplacer.Replace(err))','return c.addReplyStringf("-ERR %s\\r\\n", err)')]),
("m-crlf2","C04",1,[(CL,'strings.NewReplacer("\\r", " ", "\\n", " ")','strings.NewReplacer("\\r\\n", " ")')]),
("m-simpleget","C04",1,[(S,"	return client.addReplyBulkString(randomMember.(string))","	return client.addReplyStringf(\"+%s\\r\\n\", randomMember.(string))")]),
("m-trim","C04",1,[(CL,'"$%d\\r\\n%s\\r\\n", len(str), str)','"$%d\\r\\n%s\\r\\n", len(str), strings.TrimRight(str, "\\r\\n"))')]),
# behaviour kept
("k-generic",ALL,0,[(H,"""	// check if key expired
	if _, err := expireIfNeeded(client, key); err != nil {
		return nil, err
	}

	dict := client.db.Dict
	value := dict.Get(key)
	if value == nil {
		return nil, errNotExist
	}

	hash, ok := value.(*datastruct.Dict)
	if !ok {
		return nil, errWrongType
	}

	return hash, nil
}
""","	return lookupTyped[*datastruct.Dict](client, key)\n}\n"),(C,"","""
func lookupTyped[T any](client *Client, key string) (T, error) {
	var none T
	if _, err := expireIfNeeded(client, key); err != nil {
		return none, err
	}
	value := client.db.Dict.Get(key)
	if value == nil {
		return none, errNotExist
	}
	if v, ok := value.(T); ok {
		return v, nil
	}

	return none, errWrongType
}
"""),(S,"""	// check if key expired
	if _, err := expireIfNeeded(client, key); err != nil {
		return nil, err
	}

	dict := client.db.Dict
	value := dict.Get(key)
	if value == nil {
		return nil, errNotExist
	}

	set, ok := value.(*datastruct.Set)
	if !ok {
		return nil, errWrongType
	}

	return set, nil
}
""","	return lookupTyped[*datastruct.Set](client, key)\n}\n")]),
("k-lookup",ALL,0,[(C,"""	for _, cmd := range commandTable {
		if cmd.name == name {
			return &cmd
		}
	}

	return nil
""","""	for i := range commandTable {
		if cmd := &commandTable[i]; cmd.name == name {
			return cmd
		}
	}

	return nil
""")]),
("k-proc",ALL,0,[(C,"""	var err error

	cmdName := strings.ToLower(client.args[0])
	cmd := lookupCommand(cmdName)
	switch {
	case cmd == nil:
		err = client.addReplyError("unknown command")
	case (cmd.arity > 0 && len(client.args) != cmd.arity) || (len(client.args) < -cmd.arity):
		err = client.addReplyError("wrong number of arguments")
	default:
		if client.srv.requirePassword != "" && !client.authenticated && cmdName != "auth" {
			err = client.addReplyError("operation not permitted")
			break
		}

		err = call(client, cmd)
	}

	client.reset()

	return err
}
""","""	defer client.reset()

	name := strings.ToLower(client.args[0])
	cmd := lookupCommand(name)
	if cmd == nil {
		return client.addReplyError("unknown command")
	}

	if !cmd.accepts(len(client.args)) {
		return client.addReplyError("wrong number of arguments")
	}

	if client.mayNotRun(name) {
		return client.addReplyError("operation not permitted")
	}

	return call(client, cmd)
}

func (c *command) accepts(n int) bool {
	if c.arity > 0 {
		return n == c.arity
	}

	return n >= -c.arity
}

func (c *Client) mayNotRun(name string) bool {
	if c.authenticated || c.srv.requirePassword == "" {
		return false
	}

	return name != "auth"
}
""")]),
("k-removekey",ALL,0,[(C,"	if size == 0 {\n		_ = client.db.Dict.Delete(key)\n		_ = client.db.Expire.Delete(key)\n	}","	if size > 0 {\n		return\n	}\n\n	_ = removeKey(client, key)"),(C,"			_ = client.db.Dict.Delete(key)\n			_ = client.db.Expire.Delete(key)\n			propagate","			removeKey(client, key)\n			propagate"),(K,"		_ = client.db.Expire.Delete(key)\n		if client.db.Dict.Delete(key) == nil {","		if removeKey(client, key) {"),(C,"","\nfunc removeKey(client *Client, key string) bool {\n	db := client.db\n	_ = db.Expire.Delete(key)\n\n	return db.Dict.Delete(key) == nil\n}\n")]),
("k-hset",ALL,0,[(H,"	for i := 2; i < len(client.args); i += 2 {\n		if hash.Set(client.args[i], client.args[i+1]) {\n			created++\n		}\n		client.srv.dirty++\n	}\n","	for pairs := client.args[2:]; len(pairs) >= 2; pairs = pairs[2:] {\n		if hash.Set(pairs[0], pairs[1]) {\n			created++\n		}\n	}\n	client.srv.dirty += int64(len(client.args)-2) / 2\n")]),
("k-call",ALL,0,[(C,"	dirty := client.srv.dirty\n	err := cmd.proc(client)\n	dirty = client.srv.dirty - dirty\n\n	if client.srv.aofEnable && dirty != 0 {\n		feedAppendOnlyFile(client.srv, cmd, client.db.ID, client.args)\n	}\n\n	return err","	srv := client.srv\n	before := srv.dirty\n	err := cmd.proc(client)\n	if changed := srv.dirty > before; !changed || !srv.aofEnable {\n		return err\n	}\n\n	feedAppendOnlyFile(srv, cmd, client.db.ID, client.args)\n\n	return err")]),
("k-reply",ALL,0,[(CL,'return c.addReplyStringf("$%d\\r\\n%s\\r\\n", len(str), str)','return c.addReplyString("$" + strconv.Itoa(len(str)) + "\\r\\n" + str + "\\r\\n")'),(CL,'return c.addReplyStringf(":%d\\r\\n", num)','return c.addReplyString(":" + strconv.FormatInt(num, 10) + "\\r\\n")'),(CL,'return c.addReplyStringf("+%s\\r\\n", lineBreakReplacer.Replace(str))','text := lineBreakReplacer.Replace(str)\n\n	return c.addReplyString("+" + text + "\\r\\n")')]),
("k-arr",ALL,0,[(CL,"""	if err := c.addReplyStringf("*%d\\r\\n", len(strs)); err != nil {
		return err
	}

	for _, str := range strs {
		if err := c.addReplyBulkString(str); err != nil {
			return err
		}
	}

	return nil
""","""	err := c.addReplyStringf("*%d\\r\\n", len(strs))
	for i := 0; err == nil && i < len(strs); i++ {
		err = c.addReplyBulkString(strs[i])
	}

	return err
""")]),
("k-zel",ALL,0,[(CL,"""	var respArrayLen int
	if withScore {
		respArrayLen = len(elements) * 2
	} else {
		respArrayLen = len(elements)
	}

	if err := c.addReplyStringf("*%d\\r\\n", respArrayLen); err != nil {
		return err
	}

	for _, element := range elements {
		if err := c.addReplyBulkString(element.Member); err != nil {
			return err
		}

		if withScore {
			scoreStr := strconv.FormatFloat(element.Score, 'f', -1, 64)
			if err := c.addReplyBulkString(scoreStr); err != nil {
				return err
			}
		}
	}

	return nil
""","""	strs := make([]string, 0, 2*len(elements))
	for _, element := range elements {
		strs = append(strs, element.Member)
		if withScore {
			strs = append(strs, strconv.FormatFloat(element.Score, 'f', -1, 64))
		}
	}

	return c.addReplyArrays(strs)
""")]),
("k-keys",ALL,0,[(K,"""	dict := client.db.Dict
	iter := datastruct.NewDictIterator(dict)
	defer iter.Release()

	pattern := client.args[1]
	keys := make([]string, 0, dict.Size())
	for entry := iter.Next(); entry != nil; entry = iter.Next() {
		key := entry.Key.(string)
		matched := false

		if pattern == "*" {
			matched = true
		} else {
			reg, err := regexp.Compile(pattern)
			if err != nil {
				return client.addReplyErrorf("invalid pattern: %s, error: %v", pattern, err)
			}

			matched = reg.MatchString(key)
		}

		if matched {
""","""	pattern := client.args[1]
	var reg *regexp.Regexp
	if pattern != "*" {
		var err error
		if reg, err = regexp.Compile(pattern); err != nil {
			return client.addReplyErrorf("invalid pattern: %s, error: %v", pattern, err)
		}
	}

	iter := datastruct.NewDictIterator(client.db.Dict)
	defer iter.Release()

	var keys []string
	for entry := iter.Next(); entry != nil; entry = iter.Next() {
		key := entry.Key.(string)
		if reg == nil || reg.MatchString(key) {
""")]),
("k-rand",ALL,0,[(ST,"""	var entry *datastruct.DictEntry
	for {
		entry = client.db.Dict.GetRandomKey()
		if entry == nil {
			return client.addReplyNull()
		}

		expired, err := expireIfNeeded(client, entry.Key.(string))
		if err != nil {
			return client.addReplyError(err.Error())
		}

		if !expired {
			break
		}
	}

	if entry == nil {
		return client.addReplyNull()
	}

	keyStr := entry.Key.(string)

	return client.addReplyBulkString(keyStr)
}
""","""	for entry := client.db.Dict.GetRandomKey(); entry != nil; entry = client.db.Dict.GetRandomKey() {
		key := entry.Key.(string)
		expired, err := expireIfNeeded(client, key)
		switch {
		case err != nil:
			return client.addReplyError(err.Error())
		case !expired:
			return client.addReplyBulkString(key)
		}
	}

	return client.addReplyNull()
}
"""),(ST,'import (\n	"time"\n\n	"github.com/IfanTsai/metis/datastruct"\n)','import "time"')]),
("k-set",ALL,0,[(ST,"	_ = client.db.Expire.Delete(key)\n	client.db.Dict.Set(key, value)\n	client.srv.dirty++\n","	db, srv := client.db, client.srv\n	srv.dirty++\n	db.Dict.Set(key, value)\n	_ = db.Expire.Delete(key)\n"),(ST,"	client.db.Expire.Set(key, when)\n	client.db.Dict.Set(key, value)\n	client.srv.dirty++","	client.srv.dirty++\n	client.db.Dict.Set(key, value)\n	client.db.Expire.Set(key, when)")]),
("k-auth",ALL,0,[(CC,"""	if client.srv.requirePassword == "" || client.srv.requirePassword == client.args[1] {
		client.authenticated = true
		return client.addReplyOK()
	}

	client.authenticated = false

	return client.addReplyError("invalid password")
""","""	password := client.srv.requirePassword
	client.authenticated = password == "" || client.args[1] == password
	if !client.authenticated {
		return client.addReplyError("invalid password")
	}

	return client.addReplyOK()
""")]),
("k-pop",ALL,0,[(L,"""	key := client.args[1]

	list, err := getQuickListIfExist(client, key)
	if err != nil {
		if errors.Is(err, errNotExist) {
			return client.addReplyNull()
		}

		return client.addReplyError(err.Error())
	}

	if list.Len() == 0 {
		return client.addReplyNull()
	}

	client.srv.dirty++

	value := list.PopFront().(string)
	deleteIfEmpty(client, key, int64(list.Len()))

	return client.addReplyBulkString(value)
""","	return popCommand(client, (*datastruct.Quicklist).PopFront)\n"),(L,"""	key := client.args[1]

	list, err := getQuickListIfExist(client, key)
	if err != nil {
		if errors.Is(err, errNotExist) {
			return client.addReplyNull()
		}

		return client.addReplyError(err.Error())
	}

	if list.Len() == 0 {
		return client.addReplyNull()
	}

	client.srv.dirty++

	value := list.PopBack().(string)
	deleteIfEmpty(client, key, int64(list.Len()))

	return client.addReplyBulkString(value)
""","	return popCommand(client, (*datastruct.Quicklist).PopBack)\n"),(L,"","""
func popCommand(client *Client, pop func(*datastruct.Quicklist) any) error {
	key := client.args[1]

	list, err := getQuickListIfExist(client, key)
	if err != nil {
		if errors.Is(err, errNotExist) {
			return client.addReplyNull()
		}

		return client.addReplyError(err.Error())
	}

	if list.Len() == 0 {
		return client.addReplyNull()
	}

	client.srv.dirty++

	value := pop(list).(string)
	deleteIfEmpty(client, key, int64(list.Len()))

	return client.addReplyBulkString(value)
}
""")]),
("k-expire",ALL,0,[(C,"""	expireObj := client.db.Expire.Find(key)
	if expireObj != nil {
		when, ok := expireObj.Value.(int64)
		if !ok {
			return false, errors.New("expire value is not an integer")
		}

		if when < time.Now().UnixMilli() {
			_ = client.db.Dict.Delete(key)
			_ = client.db.Expire.Delete(key)
			propagateExpire(client.srv, client.db.ID, key)

			return true, nil
		}
	}

	return false, nil
}
""","""	expireObj := client.db.Expire.Find(key)
	if expireObj == nil {
		return false, nil
	}

	when, ok := expireObj.Value.(int64)
	if !ok {
		return false, errors.New("expire value is not an integer")
	}

	if !isPast(when) {
		return false, nil
	}

	db := client.db
	propagateExpire(client.srv, db.ID, key)
	_ = db.Expire.Delete(key)
	_ = db.Dict.Delete(key)

	return true, nil
}

func isPast(when int64) bool {
	return time.Now().UnixMilli() > when
}
""")]),
("k-missing",ALL,0,[(H,"""	if err != nil {
		if errors.Is(err, errNotExist) {
			return client.addReplyEmpty()
		}

		return client.addReplyError(err.Error())
	}
""","""	switch {
	case errors.Is(err, errNotExist):
		return client.addReplyEmpty()
	case err != nil:
		return client.addReplyError(err.Error())
	}
"""),(Z,"""	if err != nil {
		if errors.Is(err, errNotExist) {
			return client.addReplyInt(0)
		}

		return client.addReplyError(err.Error())
	}

	return client.addReplyInt(zset.Size())
""","""	if err == nil {
		return client.addReplyInt(zset.Size())
	}

	if errors.Is(err, errNotExist) {
		return client.addReplyInt(0)
	}

	return client.addReplyError(err.Error())
""")]),
("k-parse",ALL,0,[(K,"	if expireInt > max || expireInt < -max {\n		return 0, errors.New(\"value out of range\")\n	}\n\n	return expireInt, nil","	if -max <= expireInt && expireInt <= max {\n		return expireInt, nil\n	}\n\n	return 0, errors.New(\"value out of range\")"),(K,"	when := time.Now().UnixMilli() + expireInt*1000\n","	now := time.Now().UnixMilli()\n	when := expireInt*1000 + now\n")]),
("k-spop",ALL,0,[(S,"	client.srv.dirty++\n	// the member was chosen at random, so log the removal of this member\n	client.args = []string{\"srem\", key, randomMember.(string)}\n	deleteIfEmpty(client, key, set.Size())\n\n	return client.addReplyBulkString(randomMember.(string))","	member := randomMember.(string)\n	deleteIfEmpty(client, key, set.Size())\n	// the member was chosen at random, so log the removal of this member\n	client.args = append([]string{\"srem\"}, key, member)\n	client.srv.dirty++\n\n	return client.addReplyBulkString(member)")]),
]
