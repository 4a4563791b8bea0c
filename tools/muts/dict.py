D="datastruct/dict.go"
FIND="			if d.Equal(key, entry.Key) {\n				return entry\n			}\n\n			entry = entry.next\n		}\n\n		if !d.isRehashing() {\n			break\n		}\n"
KI="			if d.Equal(key, entry.Key) {\n				return -1\n			}\n\n			entry = entry.next\n		}\n\n		if !d.isRehashing() {\n			break\n		}\n"
DEL="				d.hashTables[table].used--\n\n				return nil\n			}\n\n			prev, entry = entry, entry.next\n		}\n\n		if !d.isRehashing() {\n			break\n		}\n"
MOVE="			entry.next = d.hashTables[1].tables[index]\n			d.hashTables[1].tables[index] = entry\n			d.hashTables[0].used--\n			d.hashTables[1].used++\n"
MUTS=[
("d-findone","C30",1,[(D,FIND,FIND.replace("if !d.isRehashing() {","if !d.isRehashing() || d.iterators > 0 {"))]),
("d-kione","C30",1,[(D,KI,KI.replace("if !d.isRehashing() {","if !d.isRehashing() || d.iterators > 0 {"))]),
("d-delone","C30",1,[(D,DEL,DEL.replace("if !d.isRehashing() {","if !d.isRehashing() || index < d.rehashIndex {"))]),
("d-stepiter","C30",1,[(D,"	if d.iterators == 0 {\n		d.rehash","	if d.iterators <= 1 {\n		d.rehash")]),
("d-movemask","C30",1,[(D,"			index := d.Hash(entry.Key) & d.hashTables[1].sizeMask\n","			index := d.Hash(entry.Key) & (d.hashTables[0].sizeMask<<1 | 1)\n")]),
("d-movemask0","C30",1,[(D,"			index := d.Hash(entry.Key) & d.hashTables[1].sizeMask\n","			index := d.Hash(entry.Key) & d.hashTables[0].sizeMask\n")]),
("d-noclear","C30",1,[(D,"		d.hashTables[0].tables[d.rehashIndex] = nil\n		d.rehashIndex++\n","		d.rehashIndex++\n")]),
("d-usedtwice","C30",1,[(D,"			d.hashTables[0].used--\n			d.hashTables[1].used++\n			entry = nextEntry\n","			d.hashTables[1].used++\n			entry = nextEntry\n")]),
("d-setzero","C30",1,[(D,"	if d.isRehashing() {\n		hTable = d.hashTables[1]\n	}\n","	if d.isRehashing() && d.iterators == 0 {\n		hTable = d.hashTables[1]\n	}\n")]),
("d-swapearly","C30",1,[(D,"		if d.hashTables[0].used == 0 {\n			// Free","		if d.hashTables[0].used <= 1 {\n			// Free")]),
("d-skipempty","C30",1,[(D,"		d.hashTables[0].tables[d.rehashIndex] = nil\n		d.rehashIndex++\n","		d.hashTables[0].tables[d.rehashIndex] = nil\n		d.rehashIndex += 2\n")]),
("d-itstep","C30",1,[(D,"					di.table = 1\n					di.index = 0\n","					di.table = 1\n					di.index = 1\n")]),
("d-ittable","C30",1,[(D,"				if di.dict.isRehashing() && di.table == 0 {","				if di.dict.isRehashing() && di.dict.iterators == 1 && di.table == 0 {")]),
("d-itnonext","C30",1,[(D,"			di.next = di.entry.next\n\n			return di.entry\n","			di.next = di.entry.next\n			if di.next == nil {\n				di.index++\n			}\n\n			return di.entry\n")]),
("d-prevlost","C30",1,[(D,"				if prev != nil {\n					prev.next = entry.next\n				} else {\n					d.hashTables[table].tables[index] = entry.next\n				}\n","				if prev != nil && entry.next != nil {\n					prev.next = entry.next\n				} else {\n					d.hashTables[table].tables[index] = entry.next\n				}\n")]),
("d-sizeone","C30",1,[(D,"	if d.isRehashing() {\n		return d.hashTables[0].used + d.hashTables[1].used\n	}\n","	if d.isRehashing() && d.rehashIndex > 0 {\n		return d.hashTables[0].used + d.hashTables[1].used\n	}\n")]),
("d-expandmask","C30",1,[(D,"		sizeMask: realSize - 1,\n","		sizeMask: realSize,\n")]),
("d-setnoupd","C30",1,[(D,"		entry := d.Find(key)\n		entry.Value = value\n","		if entry := d.Find(key); entry.Value == nil {\n			entry.Value = value\n		}\n")]),
("d-deepwrong","C30",1,[(D,"		dict.Set(entry.Key, entry.Value)\n","		if entry.Value != nil {\n			dict.Set(entry.Key, entry.Value)\n		}\n")]),
("d-release","C30",1,[(D,"	iter := NewDictIterator(d)\n	defer iter.Release()\n\n	dict := NewDict(d.DictType)\n","	iter := NewDictIterator(d)\n\n	dict := NewDict(d.DictType)\n"),(D,"		dict.Set(entry.Key, entry.Value)\n	}\n\n	return dict\n","		dict.Set(entry.Key, entry.Value)\n	}\n	if dict.Size() > 0 {\n		iter.Release()\n	}\n\n	return dict\n")]),
("d-itcount","C30",1,[(D,"			if di.index == -1 && di.table == 0 {\n","			if di.index == -1 && di.table == 0 && di.dict.iterators == 0 {\n")]),
("d-append","C30",1,[(D,"			entry.next = d.hashTables[1].tables[index]\n			d.hashTables[1].tables[index] = entry\n","			if d.hashTables[1].tables[index] == nil {\n				entry.next = nil\n			}\n			d.hashTables[1].tables[index] = entry\n")]),
("d-newnext","C30",1,[(D,"		Value: value,\n		next:  hTable.tables[index],\n	}\n	hTable.used++\n","		Value: value,\n	}\n	hTable.used++\n")]),
("d-rehashnoiter","C30",1,[(D,"	if d.isRehashing() {\n		d.rehashStep()\n	}\n\n	index := d.keyIndex(key)\n","	if d.isRehashing() {\n		d.rehash(rehashStepCount)\n	}\n\n	index := d.keyIndex(key)\n")]),
("d-swapiter","C30",1,[(D,"	if d.isRehashing() {\n		return nil\n	}\n\n	if d.hashTables[0] == nil {\n		return d.expand","	if d.isRehashing() {\n		if d.hashTables[0].used == 0 {\n			d.hashTables[0], d.hashTables[1] = d.hashTables[1], nil\n			d.rehashIndex = -1\n		}\n		return nil\n	}\n\n	if d.hashTables[0] == nil {\n		return d.expand")]),
("d-keyidx","C30",1,[(D,"	return index\n}\n\nfunc (d *Dict) expandIfNeeded","	if d.isRehashing() {\n		index = d.Hash(key) & d.hashTables[0].sizeMask\n	}\n	return index\n}\n\nfunc (d *Dict) expandIfNeeded")]),
# refactorings
("dr-for","C30",0,[(D,FIND.replace("		for","		for"),FIND)]),
("dr-find","C30",0,[(D,"		index := d.Hash(key) & d.hashTables[table].sizeMask\n		entry := d.hashTables[table].tables[index]\n		for entry != nil {\n			if d.Equal(key, entry.Key) {\n				return entry\n			}\n\n			entry = entry.next\n		}\n","		ht := d.hashTables[table]\n		for e := ht.tables[ht.sizeMask&d.Hash(key)]; e != nil; e = e.next {\n			if d.Equal(e.Key, key) {\n				return e\n			}\n		}\n")]),
("dr-findsplit","C30",0,[(D,"	for table := 0; table <= 1; table++ {\n		index := d.Hash(key) & d.hashTables[table].sizeMask\n		entry := d.hashTables[table].tables[index]\n		for entry != nil {\n			if d.Equal(key, entry.Key) {\n				return entry\n			}\n\n			entry = entry.next\n		}\n\n		if !d.isRehashing() {\n			break\n		}\n	}\n\n	return nil\n}\n\nfunc (d *Dict) Size","	if e := d.lookup(d.hashTables[0], key); e != nil {\n		return e\n	}\n	if d.isRehashing() {\n		return d.lookup(d.hashTables[1], key)\n	}\n\n	return nil\n}\n\nfunc (d *Dict) lookup(ht *hashTable, key any) *DictEntry {\n	e := ht.tables[d.Hash(key)&ht.sizeMask]\n	for e != nil && !d.Equal(key, e.Key) {\n		e = e.next\n	}\n	return e\n}\n\nfunc (d *Dict) Size")]),
("dr-set","C30",0,[(D,"	hTable.tables[index] = &DictEntry{\n		Key:   key,\n		Value: value,\n		next:  hTable.tables[index],\n	}\n	hTable.used++\n","	entry := &DictEntry{Key: key, Value: value}\n	entry.next = hTable.tables[index]\n	hTable.used++\n	hTable.tables[index] = entry\n")]),
("dr-del","C30",0,[(D,"		entry := d.hashTables[table].tables[index]\n		var prev *DictEntry\n		for entry != nil {\n			if d.Equal(key, entry.Key) {\n				if prev != nil {\n					prev.next = entry.next\n				} else {\n					d.hashTables[table].tables[index] = entry.next\n				}\n\n				d.hashTables[table].used--\n\n				return nil\n			}\n\n			prev, entry = entry, entry.next\n		}\n","		for link := &d.hashTables[table].tables[index]; *link != nil; link = &(*link).next {\n			if entry := *link; d.Equal(key, entry.Key) {\n				*link = entry.next\n				d.hashTables[table].used--\n\n				return nil\n			}\n		}\n")]),
("dr-move","C30",0,[(D,"		entry := d.hashTables[0].tables[d.rehashIndex]\n		// Move","		from, to := d.hashTables[0], d.hashTables[1]\n		entry := from.tables[d.rehashIndex]\n		from.tables[d.rehashIndex] = nil\n		// Move"),(D,MOVE,"			entry.next, to.tables[index] = to.tables[index], entry\n			to.used++\n			from.used--\n"),(D,"		d.hashTables[0].tables[d.rehashIndex] = nil\n		d.rehashIndex++\n	}\n","		d.rehashIndex++\n	}\n")]),
("dr-movepop","C30",0,[(D,"		entry := d.hashTables[0].tables[d.rehashIndex]\n		// Move all the keys in this slot from the old to the new hash table\n		for entry != nil {\n			nextEntry := entry.next\n","		for d.hashTables[0].tables[d.rehashIndex] != nil {\n			entry := d.hashTables[0].tables[d.rehashIndex]\n			d.hashTables[0].tables[d.rehashIndex] = entry.next\n"),(D,"			entry = nextEntry\n		}\n\n		d.hashTables[0].tables[d.rehashIndex] = nil\n","		}\n\n")]),
("dr-iter","C30",0,[(D,"		if di.entry != nil {\n			di.next = di.entry.next\n\n			return di.entry\n		}\n","		if di.entry == nil {\n			continue\n		}\n		di.next = di.entry.next\n\n		return di.entry\n")]),
("dr-iterstarted","C30",0,[(D,"			if di.index == -1 && di.table == 0 {\n				di.dict.iterators++\n			}\n","			if di.table == 0 && di.index < 0 {\n				di.dict.iterators += 1\n			}\n")]),
("dr-size","C30",0,[(D,"	if d.isRehashing() {\n		return d.hashTables[0].used + d.hashTables[1].used\n	}\n\n	return d.hashTables[0].used\n","	n := d.hashTables[0].used\n	if d.isRehashing() {\n		n += d.hashTables[1].used\n	}\n	return n\n")]),
("dr-setfind","C30",0,[(D,"	index := d.keyIndex(key)\n	// key already exists, update the value\n	if index == -1 {\n		entry := d.Find(key)\n		entry.Value = value\n\n		return false\n	}\n","	if entry := d.Find(key); entry != nil {\n		entry.Value = value\n\n		return false\n	}\n\n	index := d.keyIndex(key)\n")]),
("dr-expand","C30",0,[(D,"	table := &hashTable{\n		tables:   make([]*DictEntry, realSize),\n		size:     realSize,\n		sizeMask: realSize - 1,\n		used:     0,\n	}\n","	table := newHashTable(realSize)\n"),(D,"","\nfunc newHashTable(n int64) *hashTable {\n	t := new(hashTable)\n	t.tables = make([]*DictEntry, n)\n	t.size = int64(len(t.tables))\n	t.sizeMask = t.size - 1\n	return t\n}\n")]),
("dr-deep","C30",0,[(D,"	for entry := iter.Next(); entry != nil; entry = iter.Next() {\n		dict.Set(entry.Key, entry.Value)\n	}\n","	for {\n		entry := iter.Next()\n		if entry == nil {\n			break\n		}\n		dict.Set(entry.Key, entry.Value)\n	}\n")]),
("dr-helperstep","C30",0,[(D,"	for ; step > 0; step-- {\n		// Check","	for i := 0; i < step; i++ {\n		// Check")]),
("dr-rand","C30",0,[(D,"	listLength := 0\n	for entry := bucket; entry != nil; entry = entry.next {\n		listLength++\n	}\n","	listLength := chainLen(bucket)\n"),(D,"","\nfunc chainLen(e *DictEntry) int {\n	n := 0\n	for ; e != nil; e = e.next {\n		n++\n	}\n	return n\n}\n")]),
]
