"""Conversations (spec: Chat, Trace_Chat)."""
from checks_core import segs
from core_gen import CoreGen, WORDS, ODDWORDS, dims
TYPED = ["json:3", "json:2.5", "json:true", 'json:["a",1]', 'json:{"x":"y"}', "json:null"]
SESS = ["s1", "s2", "s3", "s4"]; USERS = ["u1", "u2"]
def kw(r):
    mode = r.choice(["all", "all", "any"]); terms = [r.choice(WORDS) for _ in range(r.choice([1, 1, 2]))]
    if mode == "any": terms = r.sample(WORDS, 2)
    raw = " OR ".join(terms) if mode == "any" else r.choice([" ".join(terms), ", ".join(terms) + "?", " ".join(t.upper() for t in terms), "(" + " ".join(terms), terms[0] + "! " + " ".join(terms[1:])])
    if r.random() < .04: mode, terms, raw = "all", [], ""
    return mode, terms, raw
class ChatGen(CoreGen):
    n = 0; SESS, USERS = SESS, USERS
    def o_new_session(self): self.add(op="new_session", s=dict(id=self.pick(self.SESS), user=self.pick(self.USERS), meta=[["topic", self.pick(["x", "y"] + TYPED)]] if self.r.random() < .5 else []))
    def o_say(self):
        r = self.r; self.n += 1
        id = f"m{self.n}" if r.random() < .95 else f"m{max(1, self.n - 2)}"
        self.add(op="say", m=dict(id=id, sid=self.pick(self.SESS), role=self.pick(["user", "assistant", "system", "User", "töol"]), txt=self.txt(), vec=[] if r.random() < .25 else self.vec(),
                                  meta=[["k", self.pick(["v", "it's"] + TYPED)]] if r.random() < .4 else []))
    def o_history(self): self.add(op="history", sid=self.pick(self.SESS), n=self.r.choice([0, 1, 2, 3, 50, -1]))
    def o_get_session(self): self.add(op="get_session", id=self.pick(self.SESS + ["nosess"]))
    def o_chat_search(self): self.add(op="chat_search", sid=self.pick(self.SESS), q=self.vec(), k=self.r.choice([0, 1, 2, 3, 50]))
    def o_user_search(self): self.add(op="user_search", user=self.pick(self.USERS + [""]), excl=self.pick(self.SESS + ["", ""]), q=self.vec() if self.r.random() < .95 else [], k=self.r.choice([0, 1, 2, 50]))
    def o_chat_kw(self):
        mode, terms, raw = kw(self.r)
        self.add(op="chat_kw", user=self.pick(self.USERS + self.USERS + [""]), excl=self.pick(self.SESS + ["", ""]), mode=mode, terms=terms, raw=raw, k=self.r.choice([0, 1, 2, 50]))
CHATOPS = dict(new_session=1, say=8, history=2, get_session=.5, chat_search=2, user_search=2, chat_kw=2)
def C18(run):
    def mk(r):
        d, c = dims(r, [2, 3]); g = ChatGen(r, dim=d, comp=c, sim=r.choice(["cosine", "dot", "euclid"])).seg()
        if r.random() < .25: g.words = WORDS + ODDWORDS
        if r.random() < .25: g.SESS, g.USERS = ["s1", "S1", "s'1", "s%"], ["u1", "U1", 'u"%']
        for s in r.sample(g.SESS, 3): g.add(op="new_session", s=dict(id=s, user=g.pick(g.USERS), meta=[]))
        for _ in range(4):
            g.mix(CHATOPS, 18)
            if r.random() < .3:
                g.add(op="close"); g.mix(CHATOPS, 3) if r.random() < .3 else None; g.add(op="reopen", cfg=g.cfg)
        for s in g.SESS: g.add(op="history", sid=s, n=-1)
        return g
    def long(r):  # more messages than any default limit
        g = ChatGen(r, dim=2, sim=r.choice(["cosine", "dot", "euclid"]), index=r.choice(["flat", "hnsw"])).seg()
        for s in SESS: g.add(op="new_session", s=dict(id=s, user=g.pick(USERS), meta=[]))
        for _ in range(3):
            g.mix(dict(say=1), r.choice([30, 60, 110]))
            for _ in range(5):
                g.mix(dict(history=2, chat_search=2, user_search=2, chat_kw=2), 1); o = g.ops[-1]; f = "k" if "k" in o else "n"
                if r.random() < .7: o[f] = r.choice([11, 20, 51, 101, 500])
            if r.random() < .3: g.o_reopen()
        for s in SESS: g.add(op="history", sid=s, n=-1)
        return g
    run.trace_check("Trace_Chat", segs(run, 8 * (1 if run.tier == "quick" else 12), long, "long"))
    run.trace_check("Trace_Chat", segs(run, run.scale(160, 2000), mk))
