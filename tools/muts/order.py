S="datastruct/skiplist.go"; Z="datastruct/zset.go"; C="server/commandzset.go"
COND="""		for x.Levels[i].Forward != nil &&
			(x.Levels[i].Forward.Score < score ||
				(x.Levels[i].Forward.Score == score && x.Levels[i].Forward.Member < member)) {
"""
INS=COND+"			rank[i] += x.Levels[i].Span\n"
DEL=COND+"			x = x.Levels[i].Forward\n"
RNK=COND.replace("Member < member","Member <= member")
def m(n,p,o,w): return (n,p,1,[(S,o,w)])
MUTS=[
m("o-ins-tie","C32",INS,INS.replace("Member < member","Member > member")),
("r-ins-le","C32",0,[(S,INS,INS.replace("Member < member","Member <= member"))]),
m("o-ins-noname","C32",INS,INS.replace("Score == score && x.Levels[i].Forward.Member < member","Score == score && len(x.Levels[i].Forward.Member) < len(member)")),
m("o-ins-int","C32",INS,INS.replace("x.Levels[i].Forward.Score < score","int64(x.Levels[i].Forward.Score) < int64(score)")),
m("o-ins-f32","C32",INS,INS.replace("x.Levels[i].Forward.Score == score","float32(x.Levels[i].Forward.Score) == float32(score)")),
("o-lower","C32",1,[(S,DEL,DEL.replace("x.Levels[i].Forward.Member < member","strings.ToLower(x.Levels[i].Forward.Member) < strings.ToLower(member)")),(S,'	"math/rand"\n','	"math/rand"\n	"strings"\n')]),
("r-cmp","C32",0,[(S,DEL,DEL.replace("x.Levels[i].Forward.Member < member","strings.Compare(x.Levels[i].Forward.Member, member) < 0")),(S,'	"math/rand"\n','	"math/rand"\n	"strings"\n')]),
m("o-ins-scorele","C32",INS,INS.replace("Score < score ||","Score <= score ||")),
m("o-ins-only","C32",INS,INS.replace(" ||\n				(x.Levels[i].Forward.Score == score && x.Levels[i].Forward.Member < member)) {",") {")),
m("o-del-le","C32",DEL,DEL.replace("Score < score ||","Score <= score ||")),
m("o-del-name","C32",DEL,DEL.replace("Score == score && x","Score != score && x")),
m("o-del-found","C32","score == x.Score && member == x.Member","member == x.Member"),
m("o-del-found2","C32","if x != nil && score == x.Score && member == x.Member","if x != nil && score == x.Score"),
m("o-rank-lt","C32",RNK,COND),
m("o-rank-name","C32","if x != s.Head && member == x.Member","if x != s.Head && member <= x.Member"),
m("o-rank-head","C32","if x != s.Head && member == x.Member","if member == x.Member"),
m("o-dr-min","C32","		for x.Levels[i].Forward != nil && x.Levels[i].Forward.Score < min {\n			x = x.Levels[i].Forward\n		}\n\n		update[i] = x","		for x.Levels[i].Forward != nil && x.Levels[i].Forward.Score <= min {\n			x = x.Levels[i].Forward\n		}\n\n		update[i] = x"),
m("o-dr-max","C32","	for x != nil && x.Score <= max {\n		next","	for x != nil && x.Score < max {\n		next"),
m("o-cnt-max","C32","	for x != nil && x.Score <= max {\n		count","	for x != nil && x.Score < max {\n		count"),
m("o-first-min","C32","Forward.Score < min {\n			x = x.Levels[i].Forward\n		}\n	}\n","Forward.Score <= min {\n			x = x.Levels[i].Forward\n		}\n	}\n"),
m("o-first-max","C32","	if x != nil && x.Score <= max {","	if x != nil && x.Score < max {"),
m("o-last-max","C32","Forward.Score <= max {\n			x","Forward.Score < max {\n			x"),
m("o-last-min","C32","	if x != nil && x.Score >= min {","	if x != nil && x.Score > min {"),
m("o-has-1","C32","node.Score > max {\n		return false","node.Score >= max {\n		return false"),
m("o-has-2","C32","node.Score < min {\n		return false","node.Score <= min {\n		return false"),
m("o-has-swap","C32","	node = s.Tail\n	if node == nil || node.Score < min {","	if node.Score < min {"),
m("o-range","C32","node.Score < min || node.Score > max)","node.Score < min || node.Score >= max)"),
m("o-range2","C32","node.Score < min || node.Score > max)","node.Score <= min || node.Score > max)"),
m("o-range3","C32","node != nil && (node.Score < min || node.Score > max)","!reverse && node != nil && node.Score > max"),
m("o-swap","C32","node = s.GetLastInScoreRange(min, max)","node = s.GetLastInScoreRange(max, min)"),
("o-zset-swap","C32",1,[(Z,"return z.skiplist.Count(min, max)","return z.skiplist.Count(max, min)")]),
("o-zset-eps","C32",1,[(Z,"z.skiplist.RangeByScore(min, max, limit, reverse)","z.skiplist.RangeByScore(min, math.Nextafter(max, min), limit, reverse)")]),
("o-node","C32",1,[(S,"newSkiplistNode(level, score, member)","newSkiplistNode(level, float64(int64(score)), member)")]),
("o-args","C32",1,[(C,"count := zset.Count(min, max)","count := zset.Count(max, min)")]),
("o-limit","C32",1,[(C,"RangeByScore(min, max, -1, false)","RangeByScore(min, max, 1000, false)")]),
("o-nan","C32",1,[(C,"		if math.IsNaN(score) {\n			return client.addReplyErrorf(\"invalid score: %s\", client.args[i])\n		}\n",""),(C,'	"math"\n',"")]),
("o-nan2","C32",1,[(C,"if math.IsNaN(score) {","if math.IsInf(score, 0) {")]),
# refactorings
("r-nan","C32",0,[(C,"if math.IsNaN(score) {","if score != score { //nolint"),(C,'	"math"\n',"")]),
("r-parse","C32 C08 C06 C13",0,[(C,"		score, err := strconv.ParseFloat(client.args[i], 64)\n		if err != nil {\n			return client.addReplyErrorf(\"invalid score: %s, error: %v\", client.args[i], err)\n		}\n\n		if math.IsNaN(score) {\n			return client.addReplyErrorf(\"invalid score: %s\", client.args[i])\n		}\n","		score, err := parseScore(client.args[i])\n		if err != nil {\n			return client.addReplyErrorf(\"invalid score: %s, error: %v\", client.args[i], err)\n		}\n"),(C,"","\nfunc parseScore(s string) (float64, error) {\n	score, err := strconv.ParseFloat(s, 64)\n	if err == nil && math.IsNaN(score) {\n		return 0, errors.New(\"not a number\")\n	}\n\n	return score, err\n}\n")]),
("r-limits","C32 C08 C06 C10 C13",0,[(C,"	min, err := strconv.ParseFloat(client.args[2], 64)\n	if err != nil {\n		return client.addReplyErrorf(\"invalid min: %s, error: %v\", client.args[2], err)\n	}\n\n	max, err := strconv.ParseFloat(client.args[3], 64)\n	if err != nil {\n		return client.addReplyErrorf(\"invalid max: %s, error: %v\", client.args[3], err)\n	}\n","	min, max, err := parseLimits(client.args[2:4])\n	if err != nil {\n		return client.addReplyError(err.Error())\n	}\n"),(C,"","\nfunc parseLimits(args []string) (min, max float64, err error) {\n	if min, err = strconv.ParseFloat(args[0], 64); err != nil {\n		return 0, 0, errors.Wrap(err, \"invalid min\")\n	}\n\n	if max, err = strconv.ParseFloat(args[1], 64); err != nil {\n		return 0, 0, errors.Wrap(err, \"invalid max\")\n	}\n\n	return min, max, nil\n}\n")]),
("r-less","C32 C31",0,[(S,INS,"		for next := x.Levels[i].Forward; next != nil && next.before(score, member); next = x.Levels[i].Forward {\n			rank[i] += x.Levels[i].Span\n"),(S,DEL,"		for x.Levels[i].Forward != nil && x.Levels[i].Forward.before(score, member) {\n			x = x.Levels[i].Forward\n"),(S,"","\nfunc (n *SkiplistNode) before(score float64, member string) bool {\n	if n.Score != score {\n		return n.Score < score\n	}\n\n	return n.Member < member\n}\n")]),
("r-less2","C32",0,[(S,INS,"		for x.Levels[i].Forward != nil && less(x.Levels[i].Forward.Score, x.Levels[i].Forward.Member, score, member) {\n			rank[i] += x.Levels[i].Span\n"),(S,RNK,"		for x.Levels[i].Forward != nil && !less(score, member, x.Levels[i].Forward.Score, x.Levels[i].Forward.Member) {\n"),(S,"","\nfunc less(s1 float64, m1 string, s2 float64, m2 string) bool {\n	return s1 < s2 || s1 == s2 && m1 < m2\n}\n")]),
("r-find","C32 C31",0,[(S,"""	update := make([]*SkiplistNode, maxLevel)

	x := s.Head
	for i := s.Level - 1; i >= 0; i-- {
"""+DEL+"""		}

		update[i] = x
	}

	x = x.Levels[0].Forward
	if x""","""	update := s.findUpdate(score, member)

	x := update[0].Levels[0].Forward
	if x"""),(S,"","""
func (s *Skiplist) findUpdate(score float64, member string) []*SkiplistNode {
	update := make([]*SkiplistNode, maxLevel)

	x := s.Head
	for i := s.Level - 1; i >= 0; i-- {
"""+DEL+"""		}

		update[i] = x
	}

	return update
}
""")]),
("r-next","C32 C31",0,[(S,DEL+"		}\n","		next := x.Levels[i].Forward\n		for next != nil && (next.Score < score || next.Score == score && next.Member < member) {\n			x = next\n			next = x.Levels[i].Forward\n		}\n")]),
("r-break","C32",0,[(S,"		for x.Levels[i].Forward != nil && x.Levels[i].Forward.Score < min {\n			x = x.Levels[i].Forward\n		}\n	}\n","		for {\n			next := x.Levels[i].Forward\n			if next == nil || next.Score >= min {\n				break\n			}\n\n			x = next\n		}\n	}\n")]),
("r-cnt","C32",0,[(S,"	x := s.GetFirstInScoreRange(min, max)\n	for x != nil && x.Score <= max {\n		count++\n		x = x.Levels[0].Forward\n	}","	for x := s.GetFirstInScoreRange(min, max); x != nil; x = x.Levels[0].Forward {\n		if x.Score > max {\n			break\n		}\n\n		count++\n	}")]),
("r-cnt2","C32",0,[(S,"	x := s.GetFirstInScoreRange(min, max)\n	for x != nil && x.Score <= max {\n		count++\n		x = x.Levels[0].Forward\n	}","	for x := s.Head.Levels[0].Forward; x != nil && x.Score <= max; x = x.Levels[0].Forward {\n		if x.Score >= min {\n			count++\n		}\n	}")]),
("r-inrange","C32",0,[(S,"		if node != nil && (node.Score < min || node.Score > max) {","		if node != nil && !inRange(node.Score, min, max) {"),(S,"","\nfunc inRange(score, min, max float64) bool {\n	return min <= score && score <= max\n}\n")]),
("r-range","C32",0,[(S,"""	for i := int64(0); (limit < 0 || i < limit) && node != nil; i++ {
		elements = append(elements, node)

		if reverse {
			node = node.Backward
		} else {
			node = node.Levels[0].Forward
		}

		if node != nil && (node.Score < min || node.Score > max) {
			break
		}
	}
""","""	for node != nil && node.Score >= min && node.Score <= max {
		if limit >= 0 && int64(len(elements)) == limit {
			break
		}

		elements = append(elements, node)
		if reverse {
			node = node.Backward
		} else {
			node = node.Levels[0].Forward
		}
	}
""")]),
("r-has","C32",0,[(S,"""	node := s.Head.Levels[0].Forward
	if node == nil || node.Score > max {
		return false
	}

	node = s.Tail
	if node == nil || node.Score < min {
		return false
	}

	return true
""","""	first, last := s.Head.Levels[0].Forward, s.Tail

	return first != nil && last != nil && first.Score <= max && last.Score >= min
""")]),
("r-dr","C32 C31",0,[(S,"""	x = x.Levels[0].Forward

	var deleted []*SkiplistNode
	for x != nil && x.Score <= max {
		next := x.Levels[0].Forward
		s.deleteNode(x, update)
		deleted = append(deleted, x)
		x = next
	}
""","""	var deleted []*SkiplistNode
	for node := x.Levels[0].Forward; node != nil && node.Score <= max; node = x.Levels[0].Forward {
		s.deleteNode(node, update)
		deleted = append(deleted, node)
	}
""")]),
("r-rank","C32 C31",0,[(S,RNK+"			rank += x.Levels[i].Span\n			x = x.Levels[i].Forward\n		}\n\n		if x != s.Head && member == x.Member {\n			return rank\n		}\n	}\n\n	return 0","		for next := x.Levels[i].Forward; next != nil; next = x.Levels[i].Forward {\n			if next.Score > score || next.Score == score && next.Member > member {\n				break\n			}\n\n			rank += x.Levels[i].Span\n			x = next\n		}\n	}\n\n	if x == s.Head || x.Member != member {\n		return 0\n	}\n\n	return rank")]),
("r-getlast","C32",0,[(S,"	if x != nil && x.Score >= min {\n		return x\n	}\n\n	return nil","	if x.Score < min {\n		return nil\n	}\n\n	return x")]),
]
