Z="datastruct/zset.go"
Q="datastruct/quicklist.go"
MUTS=[
("z-nodel","C31",1,[(Z,"			z.skiplist.Delete(element.Score, element.Member)\n","			if score > element.Score {\n				z.skiplist.Delete(element.Score, element.Member)\n			}\n")]),
("z-scorefirst","C31",1,[(Z,"			z.skiplist.Delete(element.Score, element.Member)\n			z.skiplist.Insert(score, member)\n			element.Score = score\n","			element.Score = score\n			z.skiplist.Delete(element.Score, element.Member)\n			z.skiplist.Insert(score, member)\n")]),
("z-newscore","C31",1,[(Z,"z.skiplist.Delete(element.Score, element.Member)","z.skiplist.Delete(score, member)")]),
("z-noscore","C31",1,[(Z,"			element.Score = score\n","")]),
("z-delfirst","C31",1,[(Z,"	z.dict.Delete(member)\n	z.skiplist.Delete(element.Score, member)\n","	z.dict.Delete(member)\n	if z.dict.Size() > 0 {\n		z.skiplist.Delete(element.Score, member)\n	}\n")]),
("z-rangehalf","C31",1,[(Z,"	for i, node := range nodes {\n		elements[i] = z.Get(node.Member)\n		z.dict.Delete(node.Member)\n	}\n\n	return elements\n}\n\n// DeleteRangeByScore","	for i, node := range nodes {\n		elements[i] = z.Get(node.Member)\n		if i < int(end-start) {\n			z.dict.Delete(node.Member)\n		}\n	}\n\n	return elements\n}\n\n// DeleteRangeByScore")]),
("z-rangemiss","C31",1,[(Z,"	nodes := z.skiplist.DeleteRangeByScore(min, max)\n	elements := make([]*ZsetElement, len(nodes))\n\n	for i, node := range nodes {\n		elements[i] = z.Get(node.Member)\n		z.dict.Delete(node.Member)\n	}\n","	nodes := z.skiplist.DeleteRangeByScore(min, max)\n	elements := make([]*ZsetElement, len(nodes))\n\n	for i, node := range nodes {\n		if elements[i] = z.Get(node.Member); elements[i].Score == max {\n			continue\n		}\n		z.dict.Delete(node.Member)\n	}\n")]),
("z-swap","C31",1,[(Z,"z.dict.Set(member, &ZsetElement{member, score})","z.dict.Set(member, &ZsetElement{member, float64(int64(score))})")]),
("z-incr","C31",1,[(Z,"			z.skiplist.Delete(element.Score, element.Member)\n			z.skiplist.Insert(score, member)\n			element.Score = score\n","			element.Score = score\n			if (score > 0) != (element.Score > 0) {\n				z.skiplist.Delete(element.Score, element.Member)\n				z.skiplist.Insert(score, member)\n			}\n")]),
("zr-helper","C31",0,[(Z,"			z.skiplist.Delete(element.Score, element.Member)\n			z.skiplist.Insert(score, member)\n			element.Score = score\n","			z.move(element, score)\n"),(Z,"","\nfunc (z *Zset) move(e *ZsetElement, score float64) {\n	old := e.Score\n	e.Score = score\n	z.skiplist.Delete(old, e.Member)\n	z.skiplist.Insert(score, e.Member)\n}\n")]),
("zr-rangehelper","C31",0,[(Z,"	nodes := z.skiplist.DeleteRangeByScore(min, max)\n	elements := make([]*ZsetElement, len(nodes))\n\n	for i, node := range nodes {\n		elements[i] = z.Get(node.Member)\n		z.dict.Delete(node.Member)\n	}\n\n	return elements","	return z.drop(z.skiplist.DeleteRangeByScore(min, max))"),(Z,"","\nfunc (z *Zset) drop(nodes []*SkiplistNode) []*ZsetElement {\n	elements := make([]*ZsetElement, 0, len(nodes))\n	for i := 0; i < len(nodes); i++ {\n		m := nodes[i].Member\n		elements = append(elements, z.Get(m))\n		z.dict.Delete(m)\n	}\n	return elements\n}\n")]),
("zr-replace","C31",0,[(Z,"			element.Score = score\n","			z.dict.Set(member, &ZsetElement{member, score})\n")]),
("zr-early","C31",0,[(Z,"	if element != nil {\n		if score != element.Score {","	if element != nil {\n		if score == element.Score {\n			return false\n		}\n		{")]),
("zr-getdict","C31",0,[(Z,"	z.dict.Delete(member)\n	z.skiplist.Delete(element.Score, member)\n","	z.skiplist.Delete(element.Score, element.Member)\n	z.dict.Delete(element.Member)\n")]),

("q-len2","C33",1,[(Q,"	if index == q.length {\n		q.PushBack(v)\n","	if index == q.length {\n		q.length++\n		q.PushBack(v)\n		q.length--\n		if index%pageSize == 0 {\n			q.length++\n		}\n")]),
("q-lencount","C33",1,[(Q,"	iter := q.get(index)\n	if iter == nil {\n		return nil\n	}\n\n	page := iter.page()\n	v := page[iter.offset]\n\n	q.length--\n","	q.length--\n	iter := q.get(index)\n	if iter == nil {\n		return nil\n	}\n\n	page := iter.page()\n	v := page[iter.offset]\n\n")]),
("q-getlate","C33",1,[(Q,"	iter := q.get(index)\n	page := iter.page()\n\n	q.length++\n","	q.length++\n	iter := q.get(index)\n	page := iter.page()\n")]),
("q-emptypage","C33",1,[(Q,"	if len(page) > 0 {\n		iter.node.Value = page\n	} else {\n		q.data.Remove(iter.node)\n	}\n","	iter.node.Value = page\n")]),
("q-removesmall","C33",1,[(Q,"	if len(page) > 0 {\n		iter.node.Value","	if len(page) > 1 {\n		iter.node.Value")]),
("q-nowrite","C33",1,[(Q,"		page[iter.offset] = v\n		iter.node.Value = page\n		return true\n","		page[iter.offset] = v\n		if cap(page) > pageSize {\n			iter.node.Value = page\n		}\n		return true\n")]),
("q-shareSplit","C33",1,[(Q,"	nextPage := make(quicklistPage, 0, pageSize)\n	// copy the second half of the page to the next new page\n	nextPage = append(nextPage, page[pageSize/2:]...)\n","	nextPage := page[pageSize/2:]\n")]),
("q-splitoff","C33",1,[(Q,"iter.offset-pageSize/2:]...)","iter.offset-pageSize/2+1:]...)")]),
("q-before","C33",1,[(Q,"q.data.InsertAfter(nextPage, iter.node)","q.data.InsertBefore(nextPage, iter.node)")]),
("q-keephalf","C33",1,[(Q,"	q.data.InsertAfter(nextPage, iter.node)\n	iter.node.Value = page\n","	q.data.InsertAfter(nextPage, iter.node)\n	if iter.offset < pageSize/2 {\n		iter.node.Value = page\n	}\n")]),
("q-accept","C33",1,[(Q,"if index < 0 || index > q.length {","if index < 0 || index >= q.length+2 {")]),
("q-valueafter","C33",1,[(Q,"	v := page[iter.offset]\n\n	q.length--\n	page = append(page[:iter.offset], page[iter.offset+1:]...)\n","	v := page[iter.offset]\n	if iter.offset == 0 {\n		v = page[len(page)-1]\n	}\n\n	q.length--\n	page = append(page[:iter.offset], page[iter.offset+1:]...)\n")]),
("q-popback","C33",1,[(Q,"q.Remove(q.length - 1)","q.Remove(q.data.Len() - 1)")]),
("q-getle","C33",1,[(Q,"pageIndex <= index","pageIndex < index")]),
("q-getge","C33",1,[(Q,"pageIndex+pageLen > index","pageIndex+pageLen >= index")]),
("q-nextoff","C33",1,[(Q,"			return nil\n		}\n\n		iter.offset = 0\n","			return nil\n		}\n\n		iter.offset -= pageSize\n		if iter.offset < 0 {\n			iter.offset = 0\n		}\n")]),
("q-nextstart","C33",1,[(Q,"iter.offset++; iter.offset >= iter.page().Len()","iter.offset++; iter.offset >= pageSize")]),
("q-copyshort","C33",1,[(Q,"		list.PushBack(v)","		if s, ok := v.(string); ok && s == \"\" {\n			continue\n		}\n		list.PushBack(v)")]),
("q-pushfull","C33",1,[(Q,"	lastPage := backNode.Value.(quicklistPage)\n	lastPage = append(lastPage, v)\n	backNode.Value = lastPage\n","	lastPage := backNode.Value.(quicklistPage)\n	backNode.Value = append(lastPage[:len(lastPage):pageSize], v)[:len(lastPage)]\n")]),
("qr-getindex","C33",0,[(Q,"	iter := q.get(index)\n	page := iter.page()\n\n	q.length++\n","	it := q.get(index)\n	page, iter := it.page(), it\n	q.length += 1\n")]),
("qr-copyinsert","C33",0,[(Q,"	if len(page) < pageSize {\n		page = append(page[:iter.offset+1], page[iter.offset:]...)\n		page[iter.offset] = v\n","	if len(page) < pageSize {\n		page = append(page, nil)\n		copy(page[iter.offset+1:], page[iter.offset:])\n		page[iter.offset] = v\n")]),
("qr-slices","C33",0,[(Q,"	if len(page) < pageSize {\n		page = append(page[:iter.offset+1], page[iter.offset:]...)\n		page[iter.offset] = v\n","	if len(page) < pageSize {\n		page = slices.Insert(page, iter.offset, v)\n"),(Q,'	"container/list"\n','	"container/list"\n	"slices"\n')]),
("qr-removecopy","C33",0,[(Q,"	page = append(page[:iter.offset], page[iter.offset+1:]...)\n	if len(page) > 0 {","	copy(page[iter.offset:], page[iter.offset+1:])\n	page = page[:len(page)-1]\n	if len(page) > 0 {")]),
("qr-removehelper","C33",0,[(Q,"	page = append(page[:iter.offset], page[iter.offset+1:]...)\n	if len(page) > 0 {\n		iter.node.Value = page\n	} else {\n		q.data.Remove(iter.node)\n	}\n","	q.cut(iter, page)\n"),(Q,"","\nfunc (q *Quicklist) cut(iter *QuicklistIterator, page quicklistPage) {\n	if len(page) == 1 {\n		q.data.Remove(iter.node)\n		return\n	}\n	iter.node.Value = append(page[:iter.offset], page[iter.offset+1:]...)\n}\n")]),
("qr-pushorder","C33",0,[(Q,"	q.length++\n\n	backNode := q.data.Back()\n	if q.data.Len() == 0 || len(backNode.Value.(quicklistPage)) == pageSize {\n		page := make(quicklistPage, 0, pageSize)\n		page = append(page, v)\n		q.data.PushBack(page)\n		return\n	}\n","	backNode := q.data.Back()\n	defer func() { q.length++ }()\n	if backNode == nil || len(backNode.Value.(quicklistPage)) >= pageSize {\n		q.data.PushBack(quicklistPage{v})\n		return\n	}\n")]),
("qr-rangeloop","C33",0,[(Q,"	for i := start; i <= stop; i++ {\n		values = append(values, iter.value())\n\n		if iter.Next() == nil {\n			break\n		}\n	}\n","	for v := iter.value(); len(values) <= stop-start && v != nil; v = iter.Next() {\n		values = append(values, v)\n	}\n")]),
("qr-getloop","C33",0,[(Q,"			pageLen := node.Value.(quicklistPage).Len()\n			if pageIndex+pageLen > index {\n				break\n			}\n\n			pageIndex += pageLen\n","			next := pageIndex + len(node.Value.(quicklistPage))\n			if index < next {\n				break\n			}\n			pageIndex = next\n")]),
("qr-getfwd","C33",0,[(Q,"if index < q.length/2 {","if index <= q.length-index {")]),
("qr-split","C33",0,[(Q,"	nextPage := make(quicklistPage, 0, pageSize)\n	// copy the second half of the page to the next new page\n	nextPage = append(nextPage, page[pageSize/2:]...)\n","	nextPage := append(make(quicklistPage, 0, pageSize), page[pageSize/2:]...)\n")]),
("q-rangeend","C33",1,[(Q,"		stop = q.length - 1\n	}\n\n	if start < 0 ||","		stop = q.length - 2\n	}\n\n	if start < 0 ||")]),
("q-rangelt","C33",1,[(Q,"for i := start; i <= stop; i++ {","for i := start; i < stop || i == start; i++ {")]),
("q-rangeneg","C33",1,[(Q,"		stop = q.length + stop\n","		stop = q.length + stop - 1\n")]),
]
