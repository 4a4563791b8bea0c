S="server/server.go"; C="server/client.go"; T="server/tcp.go"
MUTS=[
("eofleak","C25",1,[(S,"	if nRead == 0 {\n		client.free()\n\n		return","	if nRead == 0 {\n		return")]),
("protoleak","C25",1,[(S,'		log.Error("failed to process input buffer", zap.Error(err))\n		client.free()\n','		log.Error("failed to process input buffer", zap.Error(err))\n')]),
("writeleak","C25",1,[(S,'					log.Error("failed to write", zap.Error(err))\n					client.free()','					log.Error("failed to write", zap.Error(err))')]),
("closefirst","C25",1,[(C,"	if c.srv != nil && c.fd >= 0 {\n		delete","	if c.fd >= 0 {\n		_ = c.fd.Close()\n	}\n\n	if c.srv != nil && c.fd >= 0 {\n		delete")]),
("onlyread","C25",1,[(C,"			_ = c.srv.eventLoop.RemoveFileEvent(c.fd, ae.TypeFileEventWritable)\n","")]),
("nodelete","C25",1,[(C,"		delete(c.srv.clients, c.fd)\n","		_ = len(c.srv.clients)\n")]),
("acceptleak","C25",1,[(S,'		log.Error("failed to set non block", zap.Error(err))\n		clientFd.Close()\n','		log.Error("failed to set non block", zap.Error(err))\n')]),
("acceptleak2","C25",1,[(S,'		log.Error("failed to add file event", zap.Error(err))\n		client.free()\n','		log.Error("failed to add file event", zap.Error(err))\n')]),
("listenleak","C25",1,[(T,"fd.Listen(syscall.SOMAXCONN); err != nil {\n		fd.Close()\n","fd.Listen(syscall.SOMAXCONN); err != nil {\n")]),
("nofree-map","C25",1,[(S,"	srv.clients[clientFd] = client\n","	_ = srv\n")]),
("nononblock","C26",1,[(S,'''	if err := clientFd.SetNonBlock(); err != nil {
		log.Error("failed to set non block", zap.Error(err))
		clientFd.Close()

		return
	}
''','')]),
("sendall","C27",1,[(S,"client.fd.Write(buf[client.sentLen:])","client.fd.Write(buf)")]),
("nosum","C27",1,[(S,"client.sentLen += nWritten","client.sentLen = nWritten")]),
("dropshort","C27",1,[(S,"			if client.sentLen == len(buf) {","			if client.sentLen >= nWritten {")]),
("eagainclose","C27",1,[(S,"				case syscall.EAGAIN, syscall.EINTR:\n				default:","				case syscall.EINTR:\n				default:")]),
("unregearly","C27",1,[(S,"	if client.replayHead.Len() == 0 {\n		if err := el.Remove","	if client.replayHead.Len() <= 1 {\n		if err := el.Remove")]),
("noreset","C27",1,[(S,"				client.sentLen = 0\n","")]),
("back","C27",1,[(S,"element := client.replayHead.Front()","element := client.replayHead.Back()")]),
("removeonerr","C27",1,[(S,"				switch errors.Cause(err).(syscall.Errno) {\n				case syscall.EAGAIN, syscall.EINTR:\n				default:\n					log.Error(\"failed to write\"","				client.sentLen = 0\n				switch errors.Cause(err).(syscall.Errno) {\n				case syscall.EAGAIN, syscall.EINTR:\n				default:\n					log.Error(\"failed to write\"")]),
# behaviour-preserving
("ref-is","C25 C27 C26",0,[(S,'''				switch errors.Cause(err).(syscall.Errno) {
				case syscall.EAGAIN, syscall.EINTR:
				default:
					log.Error("failed to write", zap.Error(err))
					client.free()
				}
''','''				if !errors.Is(err, syscall.EAGAIN) && !errors.Is(err, syscall.EINTR) {
					log.Error("failed to write", zap.Error(err))
					client.free()
				}
''')]),
("ref-helper","C25 C27 C26",0,[(S,'''			client.sentLen += nWritten
			if client.sentLen == len(buf) {
				client.sentLen = 0
				client.replayHead.Remove(element)
			} else {
				break
			}
''','''			if client.advance(element, len(buf), nWritten) {
				break
			}
'''),(S,"",'''
func (c *Client) advance(e *list.Element, total, n int) bool {
	c.sentLen += n
	if c.sentLen < total {
		return true
	}

	c.replayHead.Remove(e)
	c.sentLen = 0

	return false
}
'''),(S,'import (\n','import (\n	"container/list"\n')]),
("ref-close","C25 C27 C26",0,[(C,'''	if c.srv != nil && c.fd >= 0 {
		delete(c.srv.clients, c.fd)

		if c.srv.eventLoop != nil {''','''	if c.fd < 0 {
		return
	}

	if c.srv != nil {
		defer delete(c.srv.clients, c.fd)

		if c.srv.eventLoop != nil {'''),(C,'''	if c.fd >= 0 {
		_ = c.fd.Close()
		// the descriptor number may be reused by another connection from now on
		c.fd = -1
	}
''','''	_ = c.fd.Close()
	c.fd = -1
''')]),
("ref-loop","C25 C27 C26",0,[(S,'''	for client.replayHead.Len() > 0 {
		element := client.replayHead.Front()
''','''	for element := client.replayHead.Front(); element != nil; element = client.replayHead.Front() {
''')]),
]
