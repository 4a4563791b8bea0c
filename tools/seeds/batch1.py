SEEDS=[
dict(id="C04-bulk-runes", prop="C04", needs="a stored value with multi-byte characters", breaks="the announced bulk length counts characters, not bytes, so replies are mis-framed for non-ASCII data",
 edits=[("server/client.go",'return c.addReplyStringf("$%d\\r\\n%s\\r\\n", len(str), str)','return c.addReplyStringf("$%d\\r\\n%s\\r\\n", len([]rune(str)), str)')],
 test='''func TestDemo(t *testing.T) {
	c := vhStart(t, vhConfig(t)).dial()
	c.want("+OK", "set", "k", "h\\u00e9llo")
	c.want("h\\u00e9llo", "get", "k")
	c.want("+PONG", "ping")
}
'''),
dict(id="C03-lrange-two-replies", prop="C03", needs="LRANGE with a range outside the list", breaks="an empty range is answered twice (null and empty array), every later reply is shifted",
 edits=[("server/commandlist.go",'''	if values == nil {
		return client.addReplyNull()
	}

	strs''','''	if values == nil {
		if err := client.addReplyNull(); err != nil {
			return err
		}
	}

	strs''')],
 test='''func TestDemo(t *testing.T) {
	c := vhStart(t, vhConfig(t)).dial()
	c.want(":1", "rpush", "l", "a")
	c.do("lrange", "l", "5", "9")
	c.want("+PONG", "ping")
}
'''),
dict(id="C05-auth-sticky", prop="C05", needs="a successful AUTH followed by a failed one on the same connection", breaks="a failed authentication attempt leaves the connection authenticated",
 edits=[("server/commandconnection.go",'''	client.authenticated = false

	return client.addReplyError("invalid password")''','''	if !client.authenticated {
		client.args = nil
	}

	return client.addReplyError("invalid password")''')],
 test='''func TestDemo(t *testing.T) {
	cfg := vhConfig(t)
	cfg.RequirePassword = "sesame"
	c := vhStart(t, cfg).dial()
	c.want("+OK", "auth", "sesame")
	c.want("-ERR invalid password", "auth", "wrong")
	c.want("-ERR operation not permitted", "get", "k")
}
'''),
dict(id="C06-zcount-arity", prop="C06", needs="ZCOUNT with the upper bound missing", breaks="the command reads an argument its declared arity does not guarantee",
 edits=[("server/command.go",'{"zcount", zCountCommand, 4},','{"zcount", zCountCommand, -3},')],
 test='''func TestDemo(t *testing.T) {
	h := vhStart(t, vhConfig(t))
	c := h.dial()
	if r := c.do("zcount", "z", "1"); !strings.HasPrefix(r, "-ERR") {
		t.Fatal(r)
	}
	h.dial().want("+PONG", "ping")
}
'''),
dict(id="C07-zadd-replaces", prop="C07", needs="ZADD on a key holding another type", breaks="the value of another type is replaced by a new sorted set",
 edits=[("server/commandzset.go",'''	value := dict.Get(key)
	if value == nil {
		value = datastruct.NewZset(&database.DictType{})
		dict.Set(key, value)
	}
''','''	value := dict.Get(key)
	if _, isZset := value.(*datastruct.Zset); !isZset {
		value = datastruct.NewZset(&database.DictType{})
		dict.Set(key, value)
	}
''')],
 test='''func TestDemo(t *testing.T) {
	c := vhStart(t, vhConfig(t)).dial()
	c.want(":1", "hset", "h", "f", "v")
	c.want("-ERR wrong type", "zadd", "h", "1", "a")
	c.want("v", "hget", "h", "f")
}
'''),
dict(id="C08-hset-odd", prop="C08", needs="HSET with an incomplete pair on a missing key", breaks="the refused command leaves an empty hash behind",
 edits=[("server/commandhash.go",'''	if len(client.args)&1 != 0 {
		return client.addReplyError("wrong number of arguments for 'hset' command")
	}

	key := client.args[1]

	hash, err := getHash(client, key)
	if err != nil {
		return client.addReplyError(err.Error())
	}
''','''	key := client.args[1]

	hash, err := getHash(client, key)
	if err != nil {
		return client.addReplyError(err.Error())
	}

	if len(client.args)&1 != 0 {
		return client.addReplyError("wrong number of arguments for 'hset' command")
	}
''')],
 test='''func TestDemo(t *testing.T) {
	c := vhStart(t, vhConfig(t)).dial()
	if r := c.do("hset", "h", "f", "v", "g"); !strings.HasPrefix(r, "-ERR") {
		t.Fatal(r)
	}
	c.want("[]", "keys", "*")
}
'''),
dict(id="C09-select-overwrites", prop="C09", needs="SELECT on one connection while another connection uses the database left", breaks="SELECT overwrites the database structure shared by all connections instead of switching its own reference",
 edits=[("server/commandconnection.go","client.db = client.srv.dbs[dbIndex]","*client.db = *client.srv.dbs[dbIndex]")],
 test='''func TestDemo(t *testing.T) {
	h := vhStart(t, vhConfig(t))
	c, d := h.dial(), h.dial()
	c.want("+OK", "set", "k", "v")
	d.want("+OK", "select", "1")
	c.want("v", "get", "k")
}
'''),
dict(id="C10-seconds", prop="C10", needs="a read within the second in which the key expires", breaks="expiry is compared in whole seconds, an expired key stays visible for up to a second",
 edits=[("server/command.go","if when < time.Now().UnixMilli() {","if when/1000 < time.Now().Unix() {")],
 test='''func TestDemo(t *testing.T) {
	srv := NewServer(&config.Config{})
	cl := NewClient(srv, -1)
	run := func(args ...string) string {
		cl.args = args
		lookupCommand(args[0]).proc(cl)
		s := cl.replayHead.Remove(cl.replayHead.Back()).(string)
		return s
	}
	run("set", "k", "v")
	for time.Now().UnixMilli()%1000 > 200 {
		time.Sleep(time.Millisecond)
	}
	srv.dbs[0].Expire.Set("k", time.Now().UnixMilli()+50)
	time.Sleep(150 * time.Millisecond)
	if r := run("get", "k"); r != "$-1\\r\\n" {
		t.Fatalf("%q", r)
	}
}
'''),
dict(id="C11-set-keeps-ttl", prop="C11", needs="SET over a key that has a time-to-live", breaks="the new value inherits the old time-to-live",
 edits=[("server/commandstring.go",'''	_ = client.db.Expire.Delete(key)
	client.db.Dict.Set(key, value)
	client.srv.dirty++
''','''	if client.db.Dict.Set(key, value) {
		_ = client.db.Expire.Delete(key)
	}
	client.srv.dirty++
''')],
 test='''func TestDemo(t *testing.T) {
	c := vhStart(t, vhConfig(t)).dial()
	c.want("+OK", "setex", "k", "100", "v")
	c.want("+OK", "set", "k", "w")
	c.want(":-1", "ttl", "k")
}
'''),
dict(id="C12-sdiff-in-place", prop="C12", needs="SDIFF with overlapping operands, then a read of the first operand", breaks="SDIFF removes the members from the stored first set",
 edits=[("server/commandset.go",'''		set = set.Difference(set2)''','''		for _, member := range set2.Range() {
			_ = set.Delete(member)
		}''')],
 test='''func TestDemo(t *testing.T) {
	c := vhStart(t, vhConfig(t)).dial()
	c.want(":2", "sadd", "a", "x", "y")
	c.want(":1", "sadd", "b", "x")
	c.want("[y]", "sdiff", "a", "b")
	c.want(":2", "scard", "a")
}
'''),
dict(id="C13-last-pop", prop="C13", needs="LPOP of the last element, then a restart", breaks="the removal of the last element is not recorded",
 edits=[("server/commandlist.go",'''	client.srv.dirty++

	value := list.PopFront().(string)
''','''	value := list.PopFront().(string)
	if list.Len() > 0 {
		client.srv.dirty++
	}
''')],
 test='''func TestDemo(t *testing.T) {
	h := vhStart(t, vhConfig(t))
	c := h.dial()
	c.want(":1", "rpush", "l", "a")
	c.want("a", "lpop", "l")
	h.restart().dial().want(":0", "llen", "l")
}
'''),
dict(id="C14-setex-relative", prop="C14", needs="SETEX and a restart some time later", breaks="the relative time-to-live is logged, so a replay prolongs it",
 edits=[("server/aof.go",'''	case "setex":
		// translate SETEX to SET and EXPIREAT
		aofStr += catAppendOnlyGenericCommand([]string{"set", args[1], args[3]})
		aofStr += catAppendOnlyExpireCommand([]string{"expireat", args[1], args[2]})
''','''	case "setex":
		// logged in one piece
		aofStr += catAppendOnlyGenericCommand([]string{"setex", args[1], args[2], args[3]})
''')],
 test='''func TestDemo(t *testing.T) {
	h := vhStart(t, vhConfig(t))
	h.dial().want("+OK", "setex", "k", "3", "v")
	time.Sleep(2500 * time.Millisecond)
	d := h.restart().dial()
	time.Sleep(1500 * time.Millisecond)
	d.want("(nil)", "get", "k")
}
'''),
dict(id="C15-back-to-zero", prop="C15", needs="a change in database 1 followed by one in database 0", breaks="no SELECT record when execution returns to database 0",
 edits=[("server/aof.go","if srv.aofSelectDBID != dbID {\n\t\tsrv.aofSelectDBID = dbID\n","if srv.aofSelectDBID < dbID {\n\t\tsrv.aofSelectDBID = dbID\n")],
 test='''func TestDemo(t *testing.T) {
	h := vhStart(t, vhConfig(t))
	c := h.dial()
	c.want("+OK", "select", "1")
	c.want("+OK", "set", "a", "1")
	c.want("+OK", "select", "0")
	c.want("+OK", "set", "b", "2")
	h.restart().dial().want("2", "get", "b")
}
'''),
dict(id="C34-srem-early", prop="C34", needs="SREM of the last member with further names after it", breaks="an early exit skips the removal of the emptied key",
 edits=[("server/commandset.go",'''		if set.Delete(client.args[i]) == nil {
			deleted++
			client.srv.dirty++
		}
	}
''','''		if set.Delete(client.args[i]) == nil {
			deleted++
			client.srv.dirty++
		} else if set.Size() == 0 {
			return client.addReplyInt(deleted) // nothing left to remove
		}
	}
''')],
 test='''func TestDemo(t *testing.T) {
	c := vhStart(t, vhConfig(t)).dial()
	c.want(":1", "sadd", "s", "a")
	c.want(":1", "srem", "s", "a", "b")
	c.want("[]", "keys", "*")
}
'''),
dict(id="C39-duration", prop="C39", needs="an expiry time of more than 292 years", breaks="the multiplication to nanoseconds wraps around",
 edits=[("server/commandkey.go","when := time.Now().UnixMilli() + expireInt*1000","when := time.Now().Add(time.Duration(expireInt) * time.Second).UnixMilli()")],
 test='''func TestDemo(t *testing.T) {
	c := vhStart(t, vhConfig(t)).dial()
	c.want("+OK", "set", "k", "v")
	c.do("expire", "k", "10000000000")
	c.want("v", "get", "k")
}
'''),
dict(id="C01-bulk-terminator", prop="C01", needs="a single bulk request whose line terminator arrives in a later packet", breaks="the received length becomes negative and the next read panics",
 edits=[("server/resp.go",'''	if client.queryLen < client.bulkLen+2 {
		return false, nil
	}

	client.args = append''','''	if client.queryLen < client.bulkLen {
		return false, nil
	}

	client.args = append''')],
 test='''func TestDemo(t *testing.T) {
	h := vhStart(t, vhConfig(t))
	c := h.dial()
	c.send("$4\\r\\nping")
	time.Sleep(50 * time.Millisecond)
	c.send("\\r\\n")
	time.Sleep(50 * time.Millisecond)
	h.dial().want("+PONG", "ping")
}
'''),
]
