B="database/database.go"
A="server/aof.go"
Q="datastruct/quicklist.go"
S="datastruct/set.go"
Z="datastruct/zset.go"
D="datastruct/dict.go"
R="server/server.go"
MUTS=[
("c-nozset","C23",1,[(B,"	case *datastruct.Zset:\n		return v.DeepCopy()\n","")]),
("c-nodict","C23",1,[(B,"	case *datastruct.Dict:\n		return v.DeepCopy()\n","")]),
("c-list","C23",1,[(B,"	case *datastruct.Quicklist:\n		return v.DeepCopy()\n","	case *datastruct.Quicklist:\n		if v.Len() > 10000 {\n			return v\n		}\n		return v.DeepCopy()\n")]),
("c-expire","C23",1,[(B,"	newDB.Expire = db.Expire.DeepCopy()\n","	if db.Expire.Size() > 0 {\n		newDB.Expire = db.Expire\n	}\n")]),
("c-shallow","C23",1,[(B,"		newDB.Dict.Set(entry.Key, deepCopyValue(entry.Value))\n","		newDB.Dict.Set(entry.Key, entry.Value)\n")]),
("c-dbdeep","C23",1,[(B,"	iter := datastruct.NewDictIterator(db.Dict)\n	defer iter.Release()\n\n	for entry := iter.Next(); entry != nil; entry = iter.Next() {\n		newDB.Dict.Set(entry.Key, deepCopyValue(entry.Value))\n	}\n","	newDB.Dict = db.Dict.DeepCopy()\n")]),
("c-setshare","C23",1,[(S,"	return &Set{dict: s.dict.DeepCopy()}","	if s.Size() == 0 {\n		return &Set{dict: s.dict}\n	}\n	return &Set{dict: s.dict.DeepCopy()}")]),
("c-zskip","C23",1,[(Z,"	zset := NewZset(z.dict.DictType)\n	for node := z.skiplist.Head.Levels[0].Forward; node != nil; node = node.Levels[0].Forward {\n		zset.Add(node.Score, node.Member)\n	}\n\n	return zset\n","	return &Zset{dict: z.dict.DeepCopy(), skiplist: z.skiplist}\n")]),
("c-zdict","C23",1,[(Z,"	zset := NewZset(z.dict.DictType)\n	for node","	zset := &Zset{dict: z.dict.DeepCopy(), skiplist: NewSkiplist()}\n	for node"),(Z,"		zset.Add(node.Score, node.Member)\n	}\n\n	return zset","		zset.skiplist.Insert(node.Score, node.Member)\n	}\n\n	return zset")]),
("c-listpages","C23",1,[(Q,"	iter := NewQuicklistIterator(q)\n	for v := iter.Next(); v != nil; v = iter.Next() {\n		list.PushBack(v)\n	}\n","	for node := q.data.Front(); node != nil; node = node.Next() {\n		list.data.PushBack(node.Value)\n	}\n	list.length = q.length\n")]),
("c-syncfield","C23",1,[(A,"			aofFile := srv.aofFile\n",""),(A,"aofFile.Sync(); err != nil && !errors","srv.aofFile.Sync(); err != nil && !errors")]),
("c-synctime","C23",1,[(A,"					log.Panic(\"failed to fsync the AOF file\", zap.Error(err))\n				}\n			}()\n","					log.Panic(\"failed to fsync the AOF file\", zap.Error(err))\n				}\n				srv.aofUnsynced = false\n			}()\n")]),
("c-copyinside","C23",1,[(A,"	go rewriteAppendOnlyFile(tmpDBs, srv)\n","	go func() {\n		for i, db := range srv.dbs {\n			tmpDBs[i] = db.DeepCopy()\n		}\n		rewriteAppendOnlyFile(tmpDBs, srv)\n	}()\n"),(A,"	for i, db := range srv.dbs {\n		tmpDBs[i] = db.DeepCopy()\n	}\n\n","")]),
("c-livedbs","C23",1,[(A,"	for _, db := range dbs {\n		if db.Dict.Size() == 0 {","	for i, db := range dbs {\n		if srv.dbs[i].Dict.Size() == 0 {")]),
("c-rwbuf","C23",1,[(A,"	srv.aofRewriteDoneCh <- tmpFile.Name()\n","	if srv.aofRewriteBuf.Len() > 0 {\n		_, _ = tmpFile.WriteString(srv.aofRewriteBuf.String())\n	}\n	srv.aofRewriteDoneCh <- tmpFile.Name()\n")]),
("c-cursize","C23",1,[(A,"	srv.aofRewriteDoneCh <- tmpFile.Name()\n","	if info, err := tmpFile.Stat(); err == nil {\n		srv.aofRewriteBaseSize = uint(info.Size())\n	}\n	srv.aofRewriteDoneCh <- tmpFile.Name()\n")]),
("c-onedb","C23",1,[(A,"		tmpDBs[i] = db.DeepCopy()\n","		tmpDBs[i] = db\n		if db.Dict.Size() > 0 {\n			tmpDBs[i] = db.DeepCopy()\n		}\n")]),
("c-stopfield","C23",1,[(R,"	s.stopping.Store(true)\n	<-s.doneCh\n","	s.stopping.Store(true)\n	if s.eventLoop != nil {\n		s.eventLoop.Stop()\n	}\n	<-s.doneCh\n")]),
("c-stopdirty","C23",1,[(R,"	s.stopping.Store(true)\n	<-s.doneCh\n","	s.stopping.Store(true)\n	<-s.doneCh\n	s.dirty = 0\n")]),
("c-keep","C23",1,[(A,"	go rewriteAppendOnlyFile(tmpDBs, srv)\n","	go rewriteAppendOnlyFile(tmpDBs, srv)\n	for _, db := range tmpDBs {\n		if db.Expire.Size() == 0 {\n			db.Expire.GetRandomKey()\n		}\n	}\n")]),
("c-logglob","C23",1,[(A,"func rewriteStringObject(","var rewritten int\n\nfunc rewriteStringObject("),(A,"	aofStr := catAppendOnlyGenericCommand([]string{\"set\", key, value})\n","	rewritten++\n	aofStr := catAppendOnlyGenericCommand([]string{\"set\", key, value})\n")]),
# refactorings
("cr-switch","C23",0,[(B,"		newDB.Dict.Set(entry.Key, deepCopyValue(entry.Value))\n","		value := entry.Value\n		switch v := value.(type) {\n		case *datastruct.Quicklist:\n			value = v.DeepCopy()\n		case *datastruct.Dict:\n			value = v.DeepCopy()\n		case *datastruct.Set:\n			value = v.DeepCopy()\n		case *datastruct.Zset:\n			value = v.DeepCopy()\n		}\n		newDB.Dict.Set(entry.Key, value)\n")]),
("cr-string","C23",0,[(B,"	default:\n		return v\n	}\n","	case string:\n		return v\n	default:\n		return v\n	}\n")]),
("cr-append","C23",0,[(A,"	tmpDBs := make([]*database.Databse, len(srv.dbs))\n	for i, db := range srv.dbs {\n		tmpDBs[i] = db.DeepCopy()\n	}\n","	var tmpDBs []*database.Databse\n	for _, db := range srv.dbs {\n		tmpDBs = append(tmpDBs, db.DeepCopy())\n	}\n")]),
("cr-snap","C23",0,[(A,"	tmpDBs := make([]*database.Databse, len(srv.dbs))\n	for i, db := range srv.dbs {\n		tmpDBs[i] = db.DeepCopy()\n	}\n\n	go rewriteAppendOnlyFile(tmpDBs, srv)\n}\n","	go rewriteAppendOnlyFile(snapshotDBs(srv), srv)\n}\n\nfunc snapshotDBs(srv *Server) []*database.Databse {\n	out := make([]*database.Databse, 0, len(srv.dbs))\n	for _, db := range srv.dbs {\n		out = append(out, db.DeepCopy())\n	}\n	return out\n}\n")]),
("cr-gofunc","C23",0,[(A,"	go rewriteAppendOnlyFile(tmpDBs, srv)\n","	go func() {\n		rewriteAppendOnlyFile(tmpDBs, srv)\n	}()\n")]),
("cr-syncarg","C23",0,[(A,"			go func() {\n				// a rewrite","			go func(aofFile *os.File) {\n				// a rewrite"),(A,"				}\n			}()\n","				}\n			}(srv.aofFile)\n"),(A,"			aofFile := srv.aofFile\n","")]),
("cr-listcopy","C23",0,[(Q,"	for v := iter.Next(); v != nil; v = iter.Next() {\n		list.PushBack(v)\n	}\n\n	return list\n","	for {\n		v := iter.Next()\n		if v == nil {\n			return list\n		}\n		list.PushBack(v)\n	}\n")]),
("cr-lit","C23",0,[(B,"	newDB := NewDatabase(db.ID)\n","	newDB := &Databse{ID: db.ID, Dict: datastruct.NewDict(db.Dict.DictType)}\n")]),
("cr-copymeth","C23",0,[(B,"	switch v := value.(type) {\n	case *datastruct.Quicklist:\n		return v.DeepCopy()\n	case *datastruct.Dict:\n		return v.DeepCopy()\n	case *datastruct.Set:\n		return v.DeepCopy()\n	case *datastruct.Zset:\n		return v.DeepCopy()\n	default:\n		return v\n	}\n","	if list, ok := value.(*datastruct.Quicklist); ok {\n		return list.DeepCopy()\n	}\n	if hash, ok := value.(*datastruct.Dict); ok {\n		return hash.DeepCopy()\n	}\n	if set, ok := value.(*datastruct.Set); ok {\n		return set.DeepCopy()\n	}\n	if zset, ok := value.(*datastruct.Zset); ok {\n		return zset.DeepCopy()\n	}\n	return value\n")]),
("cr-items","C23",0,[(A,"func rewriteStringObject(","func itemsOf(value *datastruct.Quicklist) []string {\n	items := make([]string, 0, value.Len())\n	for _, v := range value.Range(0, value.Len()-1) {\n		items = append(items, v.(string))\n	}\n	return items\n}\n\nfunc rewriteStringObject("),(A,"	items := make([]string, 0, value.Len())\n\n	iter := datastruct.NewQuicklistIterator(value)\n	for element := iter.Next(); element != nil; element = iter.Next() {\n		items = append(items, element.(string))\n	}\n","	items := itemsOf(value)\n")]),
]
