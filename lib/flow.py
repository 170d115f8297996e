"""Structured forward dataflow over exported function bodies.

A client subclasses Flow and gives the lattice (copy/join/equal on its state) and transfer functions:
  expr(n, s)          effect of evaluating expression n whose operands have already been evaluated
  decl(v, s)          effect of a variable declaration [id,name,type,init,...] (initialiser already evaluated)
  assume(n, truth, s) refine s with condition n having the given truth value (n is not &&, ||, !)
  ret(n, s)           a return statement, state after its operand was evaluated
  end(s)              falling off the end of the body
Unreachable states are None.  Lambda bodies are not entered (they are functions of their own); a client
sees the lambda expression in expr().
"""
import ir

NORETURN = {'absl_model::CheckFailure', 'absl_model::LogFatal', 'abort', 'std::abort', 'exit', 'std::exit', 'std::terminate', '_Exit', 'quick_exit'}


class Flow:
    MAXIT = 30

    # ---- lattice: override ----
    def copy(self, s):
        return s

    def join(self, a, b):
        raise NotImplementedError

    def equal(self, a, b):
        return a == b

    # ---- transfer: override ----
    def expr(self, n, s):
        return s

    def decl(self, v, s):
        return s

    def assume(self, n, truth, s):
        return s

    def ret(self, n, s):
        pass

    def end(self, s):
        pass

    def noreturn(self, n, s):
        pass

    def loop_enter(self, n, s):
        return s

    # ---- machinery ----
    def j(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return self.join(a, b)

    def run(self, f, s):
        self.f = f
        self.brk, self.cont = [], []
        self.sw = []
        for i in f.get('i', ()):
            if i[1]:
                s = self.ev(i[1], s)
                if s is None:
                    return
            s = self.ctor_init(i, s)
        s = self.st(f['b'], s) if f.get('b') else s
        if s is not None:
            self.end(s)
        return s

    def ctor_init(self, i, s):
        return s

    def ev(self, n, s):
        """Evaluate an expression for its effects."""
        if n is None or s is None:
            return s
        op = n[0]
        if op == 'bin' and n[3] in ('&&', '||'):
            a = self.cond(n[4], s)
            t, f = a
            if n[3] == '&&':
                t = self.ev(n[5], t)
            else:
                f = self.ev(n[5], f)
            return self.expr(n, self.j(t, f)) if self.j(t, f) is not None else None
        if op == 'cond':
            t, f = self.cond(n[3], s)
            t = self.ev(n[4], t)
            f = self.ev(n[5], f)
            s = self.j(t, f)
            return self.expr(n, s) if s is not None else None
        if op == 'lambda':
            for c in ir.children(n):
                s = self.ev(c, s)
            return self.expr(n, s) if s is not None else None
        if op == 'asg':
            # right operand first (C++17)
            s = self.ev(n[5], s)
            s = self.ev(n[4], s)
            return self.expr(n, s) if s is not None else None
        for c in ir.children(n):
            s = self.ev(c, s)
            if s is None:
                return None
        if op == 'call' and n[3] and n[3][1] in NORETURN:
            self.noreturn(n, s)
            return None
        if op == 'throw':
            self.noreturn(n, s)
            return None
        return self.expr(n, s)

    def cond(self, n, s):
        """States after n evaluated to true / false."""
        if s is None:
            return None, None
        op = n[0]
        if op == 'cst':
            s2 = self.ev(n[4], s)
            return (s2, None) if n[3] else (None, s2)
        if op == 'int':
            return (s, None) if n[3] else (None, s)
        if op == 'un' and n[3] == '!':
            t, f = self.cond(n[4], s)
            return f, t
        if op == 'cast' and n[3] in ('UserDefinedConversion', 'ConstructorConversion'):
            pass
        elif op == 'cast':
            return self.cond(n[4], s)
        if op == 'bin' and n[3] == '&&':
            t1, f1 = self.cond(n[4], s)
            t2, f2 = self.cond(n[5], t1)
            return t2, self.j(f1, f2)
        if op == 'bin' and n[3] == '||':
            t1, f1 = self.cond(n[4], s)
            t2, f2 = self.cond(n[5], f1)
            return self.j(t1, t2), f2
        s = self.ev(n, s)
        if s is None:
            return None, None
        return self.assume(n, True, self.copy(s)), self.assume(n, False, self.copy(s))

    def decls(self, vs, s):
        for v in vs:
            if s is None:
                return None
            if v[3]:
                s = self.ev(v[3], s)
            if s is not None:
                s = self.decl(v, s)
        return s

    def st(self, n, s):
        if s is None or n is None:
            return s
        op = n[0]
        if op == '{':
            for x in n[2]:
                s = self.st(x, s)
                if s is None:
                    # code after is unreachable, except labels/cases (handled by switch)
                    return None
            return self.scope_end(n, s)
        if op == 'decl':
            return self.decls(n[2], s)
        if op == 'if':
            s = self.st(n[2], s) if n[2] else s
            if n[3]:
                s = self.decls([n[3]], s)
            t, f = self.cond(n[4], s) if n[4] else (s, self.copy(s))
            t = self.st(n[5], t)
            f = self.st(n[6], f) if n[6] else f
            return self.j(t, f)
        if op in ('while', 'for'):
            if op == 'for':
                s = self.st(n[2], s) if n[2] else s
                cond, inc, body, cv = n[3], n[4], n[5], None
            else:
                cv, cond, body, inc = n[2], n[3], n[4], None
            head = s
            out = None
            for _ in range(self.MAXIT):
                h = self.copy(head)
                h = self.loop_enter(n, h)
                if cv:
                    h = self.decls([cv], h)
                t, f = self.cond(cond, h) if cond else (h, None)
                self.brk.append(None); self.cont.append(None)
                b = self.st(body, t)
                br = self.brk.pop(); b = self.j(b, self.cont.pop())
                if inc is not None and b is not None:
                    b = self.ev(inc, b)
                out = self.j(f, br)
                nh = self.j(self.copy(head), b)
                if nh is None or self.equal(nh, head):
                    break
                head = nh
            return out
        if op == 'do':
            head = s
            out = None
            for _ in range(self.MAXIT):
                h = self.loop_enter(n, self.copy(head))
                self.brk.append(None); self.cont.append(None)
                b = self.st(n[2], h)
                br = self.brk.pop(); b = self.j(b, self.cont.pop())
                t, f = self.cond(n[3], b) if b is not None else (None, None)
                out = self.j(f, br)
                nh = self.j(self.copy(head), t)
                if self.equal(nh, head):
                    break
                head = nh
            return out
        if op == 'rfor':
            if n[5]:
                s = self.st(n[5], s)
            s = self.ev(n[3], s)
            head = s
            out = s
            for _ in range(self.MAXIT):
                h = self.loop_enter(n, self.copy(head))
                h = self.range_var(n, h)
                self.brk.append(None); self.cont.append(None)
                b = self.st(n[4], h)
                br = self.brk.pop(); b = self.j(b, self.cont.pop())
                out = self.j(self.copy(head), br)
                nh = self.j(self.copy(head), b)
                if self.equal(nh, head):
                    break
                head = nh
            return out
        if op == 'switch':
            s = self.st(n[2], s) if n[2] else s
            if n[3]:
                s = self.decls([n[3]], s)
            s = self.ev(n[4], s)
            if s is None:
                return None
            return self.switch(n, s)
        if op in ('case', 'default'):
            # reached by falling through from the previous case
            return self.st(n[4] if op == 'case' else n[2], s)
        if op == 'ret':
            if n[2]:
                s = self.ev(n[2], s)
            if s is not None:
                self.ret(n, s)
            return None
        if op == 'break':
            self.brk[-1] = self.j(self.brk[-1], s)
            return None
        if op == 'continue':
            self.cont[-1] = self.j(self.cont[-1], s)
            return None
        if op == ';':
            return s
        if op == 'try':
            s0 = self.copy(s)
            a = self.st(n[2], s)
            for h in n[3]:
                a = self.j(a, self.st(h, self.copy(s0)))
            return a
        if op == 'label':
            return self.st(n[3], s)
        if op == 'goto':
            return None
        if op == 'rawstmt':
            for x in n[3]:
                if x:
                    s = self.st(x, s)
            return s
        return self.discard(n, s)

    def discard(self, n, s):
        """An expression statement."""
        return self.ev(n, s)

    def scope_end(self, n, s):
        return s

    def range_var(self, n, s):
        return s

    def case_assume(self, sw, labels, s):
        """labels: list of (lo, hi) nodes, or None for default."""
        return s

    def has_default(self, body):
        st = [body]
        while st:
            x = st.pop()
            if not x:
                continue
            if x[0] == 'default':
                return True
            if x[0] == 'switch':
                continue
            if x[0] in ('{', 'case', 'label'):
                st.extend(ir.children(x))
            elif x[0] in ('if', 'for', 'while', 'do', 'rfor'):
                pass
        return False

    def exhaustive(self, n):
        return False

    def switch(self, n, s):
        body = n[5]
        stmts = body[2] if body and body[0] == '{' else [body]
        self.brk.append(None)
        cur = None
        hasdef = False
        for x in stmts:
            y = x
            labels = []
            isdef = False
            while y and y[0] in ('case', 'default'):
                if y[0] == 'case':
                    labels.append((y[2], y[3]))
                    y = y[4]
                else:
                    isdef = True
                    hasdef = True
                    y = y[2]
            if labels or isdef:
                e = self.case_assume(n, None if isdef else labels, self.copy(s))
                cur = self.j(cur, e)
            if y is not None:
                cur = self.st(y, cur)
        out = self.j(self.brk.pop(), cur)
        if not hasdef and not self.exhaustive(n):
            out = self.j(out, self.case_assume(n, [], self.copy(s)))
        return out
