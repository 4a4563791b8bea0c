S="server/commandset.go"
D="datastruct/set.go"
C="server/client.go"
MUTS=[
("s-unionone","C41",1,[(D,"	for entry := iter2.Next(); entry != nil; entry = iter2.Next() {\n		result.Add(entry.Key.(string))\n	}\n","	for entry := iter2.Next(); entry != nil; entry = iter2.Next() {\n		if result.Size() < s.Size() {\n			result.Add(entry.Key.(string))\n		}\n	}\n")]),
("s-interswap","C41",1,[(D,"		if other.Contains(entry.Key) {\n","		if other.Contains(entry.Key) || result.Size() == 0 {\n")]),
("s-diffskip","C41",1,[(S,"	for i := 2; i < len(client.args); i++ {\n		set2, err := getSetIfExist(client, client.args[i])\n		if err != nil {\n			if errors.Is(err, errNotExist) {\n				continue\n			}\n\n			return client.addReplyError(err.Error())\n		}\n\n		set = set.Difference(set2)\n","	for i := 2; i < len(client.args); i++ {\n		set2, err := getSetIfExist(client, client.args[i])\n		if err != nil {\n			if errors.Is(err, errNotExist) {\n				break\n			}\n\n			return client.addReplyError(err.Error())\n		}\n\n		set = set.Difference(set2)\n")]),
("s-intermissing","C41",1,[(S,"			if errors.Is(err, errNotExist) {\n				return client.addReplyEmpty()\n			}\n\n			return client.addReplyError(err.Error())\n		}\n\n		set = set.Intersect(set2)","			if errors.Is(err, errNotExist) {\n				continue\n			}\n\n			return client.addReplyError(err.Error())\n		}\n\n		set = set.Intersect(set2)")]),
("s-unionlast","C41",1,[(S,"	for i := 1; i < len(client.args); i++ {","	for i := 1; i < len(client.args) && i <= 64; i++ {")]),
("s-unionearly","C41",1,[(S,"			if errors.Is(err, errNotExist) {\n				continue\n			}\n\n			return client.addReplyError(err.Error())\n		}\n\n		set = set.Union(set2)","			if errors.Is(err, errNotExist) {\n				if set.Size() > 0 {\n					break\n				}\n				continue\n			}\n\n			return client.addReplyError(err.Error())\n		}\n\n		set = set.Union(set2)")]),
("s-diffrev","C41",1,[(S,"set = set.Difference(set2)","if set.Size() < set2.Size() {\n			set = set.Difference(set2)\n		} else {\n			set = set2.Difference(set)\n		}")]),
("s-diffinter","C41",1,[(S,"		set = set.Difference(set2)\n","		if set2.Size() == 0 {\n			set = set2\n			continue\n		}\n		set = set.Intersect(set.Difference(set2).Union(set2))\n")]),
("s-range1","C41",1,[(D,"		keys = append(keys, entry.Key)\n","		if len(keys) == cap(keys) {\n			break\n		}\n		keys = append(keys, entry.Key)\n		iter.Next()\n")]),
("s-ismember","C41",1,[(S,"	if set.Contains(client.args[2]) {\n		return client.addReplyInt(1)\n	}\n","	if set.Size() > 0 && !set.Contains(client.args[2]) {\n		return client.addReplyInt(1)\n	}\n")]),
("s-interfirst","C41",1,[(S,"		set = set.Intersect(set2)\n	}\n\n	return client.addReplySet(set)","		set = set.Intersect(set2)\n		if set2.Size() == 1 {\n			return client.addReplySet(set2)\n		}\n	}\n\n	return client.addReplySet(set)")]),
("s-replycut","C41",1,[(C,"	for _, member := range set.Range() {\n","	for i, member := range set.Range() {\n		if i >= 4096 {\n			break\n		}\n")]),
("sr-small","C41",0,[(D,"	iter := NewDictIterator(s.dict)\n	defer iter.Release()\n\n	for entry := iter.Next(); entry != nil; entry = iter.Next() {\n		if other.Contains(entry.Key) {","	if other.Size() < s.Size() {\n		s, other = other, s\n	}\n	iter := NewDictIterator(s.dict)\n	defer iter.Release()\n\n	for entry := iter.Next(); entry != nil; entry = iter.Next() {\n		if other.Contains(entry.Key) {")]),
("sr-interearly","C41",0,[(S,"		set = set.Intersect(set2)\n","		if set = set.Intersect(set2); set.Size() == 0 {\n			return client.addReplyEmpty()\n		}\n")]),
("sr-unioncopy","C41",0,[(D,"	iter1 := NewDictIterator(s.dict)\n	defer iter1.Release()\n\n	result := NewSet(s.dict.DictType)\n	for entry := iter1.Next(); entry != nil; entry = iter1.Next() {\n		result.Add(entry.Key.(string))\n	}\n","	result := s.DeepCopy()\n")]),
("sr-range","C41",0,[(D,"	for entry := iter2.Next(); entry != nil; entry = iter2.Next() {\n		result.Add(entry.Key.(string))\n	}\n\n	return result","	for e := iter2.Next(); e != nil; e = iter2.Next() {\n		if k := e.Key; !result.Contains(k) {\n			result.Add(k)\n		}\n	}\n\n	return result")]),
("sr-foreach","C41",0,[(D,"	for entry := iter.Next(); entry != nil; entry = iter.Next() {\n		if !other.Contains(entry.Key) {\n			result.Add(entry.Key.(string))\n		}\n	}\n","	iter.each(func(k any) {\n		if other.Contains(k) {\n			return\n		}\n		result.Add(k.(string))\n	})\n"),(D,"","\nfunc (di *DictIterator) each(f func(k any)) {\n	for entry := di.Next(); entry != nil; entry = di.Next() {\n		f(entry.Key)\n	}\n}\n")]),
("sr-fold","C41",0,[(S,"	for i := 1; i < len(client.args); i++ {\n		set2, err := getSetIfExist(client, client.args[i])\n","	for _, key := range client.args[1:] {\n		set2, err := getSetIfExist(client, key)\n")]),
("sr-rev","C41",0,[(S,"	for i := 1; i < len(client.args); i++ {\n		set2, err := getSetIfExist(client, client.args[i])\n","	for i := len(client.args) - 1; i > 0; i-- {\n		set2, err := getSetIfExist(client, client.args[i])\n")]),
("sr-rangerange","C41",0,[(C,"	for _, member := range set.Range() {\n","	members := set.Range()\n	for i := 0; i < len(members); i++ {\n		member := members[i]\n")]),
("sr-mk","C41",0,[(D,"	keys := make([]any, 0, s.Size())\n	for entry := iter.Next(); entry != nil; entry = iter.Next() {\n		keys = append(keys, entry.Key)\n	}\n","	var keys []any\n	for entry := iter.Next(); entry != nil; {\n		keys = append(keys, entry.Key)\n		entry = iter.Next()\n	}\n")]),
]
