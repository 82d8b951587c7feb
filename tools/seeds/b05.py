id="b05-chat-exclude-prefix"; prop="C18"
needs="two conversations of one user whose ids share a beginning, one of them excluded from the search"
breaks="excluding one conversation also hides others whose id begins with the excluded one's"
edits=[("pkg/core/chat.go","		WHERE messages_fts MATCH ?\n		  AND s.user_id = ?\n		  AND (? = '' OR m.session_id != ?)","		WHERE messages_fts MATCH ?\n		  AND s.user_id = ?\n		  AND (? = '' OR m.session_id NOT LIKE ? || '%')")]
demo='''
func main() {
	s := open("a.db", nil)
	for _, id := range []string{"s1", "s10"} {
		must(s.CreateSession(ctx, &core.Session{ID: id, UserID: "u"}))
		must(s.AddMessage(ctx, &core.Message{ID: "m" + id, SessionID: id, Role: "user", Content: "the harbour lights"}))
	}
	ms, err := s.KeywordSearchMessages(ctx, "harbour", "u", "s1", 10)
	must(err)
	check(len(ms) == 1 && ms[0].SessionID == "s10", "found %d messages", len(ms))
}
'''
