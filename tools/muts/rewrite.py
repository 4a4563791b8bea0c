A="server/aof.go"
def m(n,o,w): return (n,"C20",1,[(A,o,w)])
def k(n,*e): return (n,"C20 C16 C17 C18 C12",0,list(e))
EXP="""			if entry := db.Expire.Find(key); entry != nil {
				when := strconv.FormatInt(entry.Value.(int64)/1000, 10)
				if _, err := tmpFile.WriteString(catAppendOnlyGenericCommand([]string{"expireat", key, when})); err != nil {
					log.Panic("failed to write to AOF file", zap.Error(err))
				}
			}
"""
SEL="""		if _, err := tmpFile.WriteString(catAppendOnlyGenericCommand([]string{"select", strconv.Itoa(db.ID)})); err != nil {
			log.Panic("failed to write to AOF file", zap.Error(err))
		}
"""
HCH="	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand*2)\n	for _, chunk := range itemsChunks {\n		aofStr := catAppendOnlyGenericCommand(append([]string{\"hset\""
LCH="""	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand)
	for _, chunk := range itemsChunks {
		aofStr := catAppendOnlyGenericCommand(append([]string{"rpush", key}, chunk...))
		if _, err := file.WriteString(aofStr); err != nil {
			return errors.Wrapf(err, "failed to write qucik list to AOF file, key: %s, value: %v", key, chunk)
		}
	}

	return nil
"""
HALL="""	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand*2)
	for _, chunk := range itemsChunks {
		aofStr := catAppendOnlyGenericCommand(append([]string{"hset", key}, chunk...))
		if _, err := file.WriteString(aofStr); err != nil {
			return errors.Wrapf(err, "failed to write hash to AOF file, key: %s, value: %v", key, chunk)
		}
	}

	return nil
"""
MUTS=[
m("w-lpush",'"rpush", key','"lpush", key'),
m("w-cmd",'"rpush", key','"push", key'),
m("w-swapset",'{"sadd", key}','{"rpush", key}'),
m("w-hsetodd",HCH,HCH.replace("AofRewriteItemsPerCommand*2","AofRewriteItemsPerCommand+1")),
m("w-horder","entry.Key.(string), entry.Value.(string))","entry.Value.(string), entry.Key.(string))"),
m("w-hkey","entry.Key.(string), entry.Value.(string))","entry.Value.(string))"),
m("w-zorder","strconv.FormatFloat(item.Score, 'f', -1, 64), item.Member)","item.Member, strconv.FormatFloat(item.Score, 'f', -1, 64))"),
m("w-zprec","FormatFloat(item.Score, 'f', -1, 64)","FormatFloat(item.Score, 'f', 6, 64)"),
m("w-z32","FormatFloat(item.Score, 'f', -1, 64)","FormatFloat(item.Score, 'f', -1, 32)"),
m("w-zrank","value.RangeByRank(0, value.Size()-1, false)","value.RangeByRank(0, value.Size()-2, false)"),
m("w-zrank1","value.RangeByRank(0, value.Size()-1, false)","value.RangeByRank(1, value.Size()-1, false)"),
m("w-noexp",EXP,""),
m("w-expms","entry.Value.(int64)/1000, 10)","entry.Value.(int64), 10)"),
m("w-exphex","entry.Value.(int64)/1000, 10)","entry.Value.(int64)/1000, 16)"),
m("w-expdb","if entry := db.Expire.Find(key)","if entry := dbs[0].Expire.Find(key)"),
m("w-expstr",EXP,EXP.replace("			if entry :=","			if _, isStr := entry.Value.(string); !isStr {\n				continue\n			}\n\n			if entry :=")),
m("w-nosel",SEL,""),
m("w-seldb","strconv.Itoa(db.ID)","strconv.Itoa(dbs[0].ID)"),
m("w-break","			continue\n		}\n\n		if _, err := tmpFile","			break\n		}\n\n		if _, err := tmpFile"),
m("w-dbs","range dbs {\n		if","range dbs[:1] {\n		if"),
m("w-size","db.Dict.Size() == 0 {","db.Expire.Size() == 0 && db.Dict.Size() < 2 {"),
m("w-size2","db.Dict.Size() == 0 {","db.Dict.Size() <= 1 {"),
m("w-skipempty","		items = append(items, element.(string))","		if element.(string) == \"\" {\n			continue\n		}\n		items = append(items, element.(string))"),
m("w-stop","		items = append(items, element.(string))","		items = append(items, element.(string))\n		if len(items) == AofRewriteItemsPerCommand {\n			break\n		}"),
m("w-chunklast",LCH,LCH.replace("		aofStr :=","		if len(itemsChunks) > 1 && len(chunk) < AofRewriteItemsPerCommand {\n			continue\n		}\n		aofStr :=")),
m("w-chunkret",LCH,LCH.replace("	return nil\n","").replace("		}\n	}\n","		}\n\n		return nil\n	}\n\n	return nil\n")),
m("w-chunkbr",LCH,LCH.replace("		}\n	}\n","		}\n\n		if len(chunk) < AofRewriteItemsPerCommand/2 {\n			break\n		}\n	}\n")),
m("w-strempty","	aofStr := catAppendOnlyGenericCommand([]string{\"set\", key, value})","	if value == \"\" {\n		return nil\n	}\n\n	aofStr := catAppendOnlyGenericCommand([]string{\"set\", key, value})"),
m("w-notype","			case *datastruct.Set:\n				err = rewriteSetObject(tmpFile, key, value)\n","			case *datastruct.Set:\n"),
m("w-key",'{"hset", key}','{"hset", items[0]}'),
m("w-expfirst",EXP,"") if False else ("w-expfirst","C20",1,[(A,EXP,""),(A,"			switch value := entry.Value.(type) {",EXP.replace("entry :=","e :=").replace("entry != nil","e != nil").replace("entry.Value","e.Value")+"			switch value := entry.Value.(type) {")]),
m("w-expire",'{"expireat", key, when}','{"expire", key, when}'),
m("w-expkey",'{"expireat", key, when}','{"expireat", when, key}'),
m("w-prev","	for element := iter.Next(); element != nil; element = iter.Next() {","	for element := iter.Prev(); element != nil; element = iter.Prev() {"),
# refactorings
k("q-helper",(A,LCH,"	return writeChunks(file, \"rpush\", key, items, AofRewriteItemsPerCommand)\n"),(A,HALL,"	return writeChunks(file, \"hset\", key, items, AofRewriteItemsPerCommand*2)\n"),(A,"","""
func writeChunks(file *os.File, name, key string, items []string, size int) error {
	for _, chunk := range lo.Chunk(items, size) {
		args := make([]string, 0, len(chunk)+2)
		args = append(args, name, key)
		args = append(args, chunk...)
		if _, err := file.WriteString(catAppendOnlyGenericCommand(args)); err != nil {
			return errors.Wrapf(err, "failed to write %s to AOF file, key: %s, value: %v", name, key, chunk)
		}
	}

	return nil
}
""")),
k("q-write",(A,SEL,"		mustWrite(tmpFile, \"select\", strconv.Itoa(db.ID))\n"),(A,"				if _, err := tmpFile.WriteString(catAppendOnlyGenericCommand([]string{\"expireat\", key, when})); err != nil {\n					log.Panic(\"failed to write to AOF file\", zap.Error(err))\n				}\n","				mustWrite(tmpFile, \"expireat\", key, when)\n"),(A,"","""
func mustWrite(file *os.File, args ...string) {
	if _, err := file.WriteString(catAppendOnlyGenericCommand(args)); err != nil {
		log.Panic("failed to write to AOF file", zap.Error(err))
	}
}
""")),
k("q-object",(A,"""			key := entry.Key.(string)
			switch value := entry.Value.(type) {
			case string:
				err = rewriteStringObject(tmpFile, key, value)
			case *datastruct.Quicklist:
				err = rewriteListObject(tmpFile, key, value)
			case *datastruct.Dict:
				err = rewriteHashObject(tmpFile, key, value)
			case *datastruct.Set:
				err = rewriteSetObject(tmpFile, key, value)
			case *datastruct.Zset:
				err = rewriteZsetObject(tmpFile, key, value)
			default:
				log.Panic("unknown object type", zap.Any("type", value))
			}

			if err != nil {""","""			key := entry.Key.(string)
			if err = rewriteObject(tmpFile, key, entry.Value); err != nil {"""),(A,"","""
func rewriteObject(file *os.File, key string, object interface{}) error {
	switch value := object.(type) {
	case string:
		return rewriteStringObject(file, key, value)
	case *datastruct.Quicklist:
		return rewriteListObject(file, key, value)
	case *datastruct.Dict:
		return rewriteHashObject(file, key, value)
	case *datastruct.Set:
		return rewriteSetObject(file, key, value)
	case *datastruct.Zset:
		return rewriteZsetObject(file, key, value)
	default:
		log.Panic("unknown object type", zap.Any("type", value))
	}

	return nil
}
""")),
k("q-db",(A,"	for _, db := range dbs {\n		if db.Dict.Size() == 0 {\n			continue\n		}\n","	for i := range dbs {\n		db := dbs[i]\n		if db.Dict.Size() == 0 {\n			continue\n		}\n")),
k("q-dbfn",(A,"		iter := datastruct.NewDictIterator(db.Dict)\n		defer iter.Release()\n\n		var err error\n","		rewriteDB(tmpFile, db)\n	}\n\n	srv.aofRewriteDoneCh <- tmpFile.Name()\n}\n\nfunc rewriteDB(tmpFile *os.File, db *database.Databse) {\n		iter := datastruct.NewDictIterator(db.Dict)\n		defer iter.Release()\n\n		var err error\n"),(A,"""				}
			}
		}
	}

	srv.aofRewriteDoneCh <- tmpFile.Name()
}
""","""				}
			}
		}
}
""")),
k("q-for",(A,"		for entry := iter.Next(); entry != nil; entry = iter.Next() {\n			key :=","		for {\n			entry := iter.Next()\n			if entry == nil {\n				break\n			}\n\n			key :=")),
k("q-set",(A,"""	items := lo.Map(value.Range(), func(item interface{}, _ int) string {
		return item.(string)
	})
""","""	members := value.Range()
	items := make([]string, 0, len(members))
	for _, member := range members {
		items = append(items, member.(string))
	}
""")),
k("q-each",(A,LCH,"	return nil\n"),(A,"		items = append(items, element.(string))\n","		if _, err := file.WriteString(catAppendOnlyGenericCommand([]string{\"rpush\", key, element.(string)})); err != nil {\n			return errors.Wrapf(err, \"failed to write list, key: %s\", key)\n		}\n"),(A,"	items := make([]string, 0, value.Len())\n\n","")),
k("q-zmax",(A,"value.RangeByRank(0, value.Size()-1, false)","value.RangeByRank(0, math.MaxInt64, false)"),(A,'import (\n','import (\n	"math"\n')),
k("q-when",(A,"when := strconv.FormatInt(entry.Value.(int64)/1000, 10)","when := strconv.FormatInt(time.UnixMilli(entry.Value.(int64)).Unix(), 10)")),
k("q-expfn",(A,EXP,"			if err := rewriteExpire(tmpFile, db, key); err != nil {\n				log.Panic(\"failed to write to AOF file\", zap.Error(err))\n			}\n"),(A,"","""
func rewriteExpire(file *os.File, db *database.Databse, key string) error {
	entry := db.Expire.Find(key)
	if entry == nil {
		return nil
	}

	when := entry.Value.(int64) / 1000
	_, err := file.WriteString(catAppendOnlyGenericCommand([]string{"expireat", key, strconv.FormatInt(when, 10)}))

	return err
}
""")),
k("q-empty",(A,LCH,"	if len(items) == 0 {\n		return nil\n	}\n\n"+LCH)),
k("q-manual",(A,LCH,LCH.replace("	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand)\n	for _, chunk := range itemsChunks {\n","	for len(items) > 0 {\n		n := AofRewriteItemsPerCommand\n		if n > len(items) {\n			n = len(items)\n		}\n\n		chunk := items[:n]\n		items = items[n:]\n"))),
]
