"""C16: the remote client pairs every request with its own reply, in lockstep"""
import contextlib
import os
import re
import runpy
import sys
import time
import types

from sim import env
from sim.core import Invalid, Violation
from sim.net import Loop

ID = 'C16'
RUNS = dict(quick=80000, thorough=3388000)
BATCH = 100
RULE = ('case = reply delays, reply contents, connection resets, transport errors and server stalls; the real client script runs '
        'against a simulated message library and server in virtual time; non-trivial = a delay or fault was injected')
MEASURE = 'distinct (delays, faults, calls of the client)'
REAL = ['semantic_codec/distributed/modifier.py']
STUB = ['zmq (request/reply sockets in virtual time)', 'server', 'time.sleep', 'console']
MUST_FIRE = ['reply-delay', 'very-long-delay', 'send-error', 'recv-error', 'connect-error', 'server-stall', 'reconnect',
             'finished', 'equal-replies', 'empty-reply', 'server-late', 'binary-reply', 'spoken-reply']
HORIZON = 400000.0        # virtual seconds


class SimEnd(BaseException):
    """The simulated time is over while the client waits"""


class ZError(Exception):
    pass


class ZMQError(ZError):
    def __init__(self, errno=None, msg=None):
        self.errno = errno
        self.strerror = msg or 'transport error'
        super().__init__(self.strerror)


class Again(ZMQError):
    pass


class ContextTerminated(ZMQError):
    pass


def setup():
    pass


def gen(r, i, tier):
    delays = [r.choice([0.0, 0.001, 1.0, r.float() * 10, r.float() * 1000, 86400.0 if r.chance(.1) else 3.0]) for _ in range(14)]
    style = r.below(4)
    if style == 0:
        delays = [0.0] * 14
    errors = []
    if r.chance(.4):
        errors = [[r.choice(['send', 'recv', 'recv', 'connect']), r.int(0, 9)]]
    return dict(delays=delays, errors=errors, reset=[r.int(0, 9) for _ in range(r.below(3))],
                stall=r.int(0, 9) if r.chance(.15) else None, late=r.choice([0.0, 0.0, r.float() * 100]),
                content=r.choice(['token', 'token', 'token', 'equal', 'empty', 'binary', 'words', 'words']),
                words=[r.below(len(WORDS)) for _ in range(14)])


# what servers say
WORDS = [b'World', b'Hello', b'OK', b'ERROR', b'Error', b'error', b'ERR', b'FAIL', b'BUSY', b'Busy', b'busy', b'RETRY', b'Retry',
         b'retry', b'AGAIN', b'again', b'WAIT', b'wait', b'NACK', b'NAK', b'ACK', b'0', b'1', b'-1', b'None', b'null', b'True',
         b'False', b'STOP', b'stop', b'QUIT', b'quit', b'EXIT', b'exit', b'END', b'end', b'BYE', b'TIMEOUT', b'timeout', b' ',
         b'\n', b'World\n', b'a\nb', b'%s', b'%d %s', b'{}', b'{0}', b'\0', b'\0' * 8, b'x' * 5000, b'y' * 300000, b'[]', b'{}\n',
         b'Received reply 3 [ x ]', b'PING', b'ping', b'PONG', b'KEEPALIVE', b'\xe9', b'\xef\xbb\xbfWorld', b'Worlds', b'world',
         b'REDIRECT', b'MORE', b'partial', b'failed', b'FAILED', b'failure', b'unavailable', b'503', b'404', b'500', b'nan', b'inf']


def token(case, k):
    c = case['content']
    t = b'qos' + bytes([97 + k]) * 3 + b'z'
    if c == 'equal':
        return b'World'
    if c == 'empty':
        return b'' if k % 3 == 1 else t
    if c == 'words':
        return WORDS[case['words'][k]]
    if c == 'binary':
        return b'\xff\x00' + t
    return t


def run(case, ctx):
    if len(case['delays']) < 14 or any(d < 0 for d in case['delays']) or case['content'] not in (
            'token', 'equal', 'empty', 'binary', 'words') or len(case['words']) < 14 or \
            any(not 0 <= w < len(WORDS) for w in case['words']) or any(o not in ('send', 'recv', 'connect') for o, _ in case['errors']):
        raise Invalid('case')
    loop = Loop()
    events = []
    counts = dict(send=0, recv=0, connect=0)
    state = dict(failed=False, sends=0, answered=0)
    errors = set((o, n) for o, n in case['errors'])
    broken = []

    def problem(kind, detail):
        broken.append((kind, detail))
        raise Violation(kind, detail)

    def err(op):
        n = counts[op]
        counts[op] += 1
        if state['failed']:
            problem('continues-after-error', 'the client calls {} after a transport error'.format(op))
        if (op, n) in errors:
            ctx.fault(op + '-error')
            events.append((op, 'error'))
            state['failed'] = True
            raise ZMQError(108, 'transport error')

    class Socket(object):
        def __init__(self, kind):
            self.kind = kind
            self.connected = False
            self.waiting = False
            self.reply = None
            self.timeout = -1
            self.closed = False

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def connect(self, addr):
            err('connect')
            events.append(('connect', addr))
            self.connected = True
            loop.now += case['late']
            if case['late']:
                ctx.probe('server-late')

        def bind(self, addr):
            problem('not-a-requester', 'the client binds to {}'.format(addr))

        def setsockopt(self, opt, value):
            if opt == 27:
                self.timeout = value
        set = setsockopt

        def __setattr__(self, k, v):
            object.__setattr__(self, k, v)
            if k in ('RCVTIMEO', 'rcvtimeo'):
                object.__setattr__(self, 'timeout', v)

        def getsockopt(self, opt):
            return 0

        def _check(self):
            if self.kind != 3:
                problem('not-a-requester', 'socket type {}'.format(self.kind))
            if not self.connected:
                problem('not-connected', 'used before connecting')

        def send(self, data, flags=0, *a, **k):
            self._check()
            err('send')
            if self.waiting:
                problem('send-before-reply', 'request {} is sent before reply {} was received'.format(
                    state['sends'], state['sends'] - 1))
            n = state['sends']
            state['sends'] += 1
            if n >= 10:
                problem('too-many-requests', 'request number {}'.format(n + 1))
            events.append(('send', bytes(data)))
            self.waiting = True
            self.reply = None
            d = case['delays'][n]
            if n in case['reset']:
                ctx.fault('reconnect')
                d += 0.5
            if d:
                ctx.fault('reply-delay')
            if d > 10000:
                ctx.fault('very-long-delay')
            if case['stall'] == n:
                ctx.fault('server-stall')
                return
            loop.at(loop.now + d, self._arrive, n)

        def _arrive(self, n):
            self.reply = (n, token(case, n))

        def send_string(self, s, flags=0, encoding='utf-8', **k):
            return self.send(s.encode(encoding), flags)

        send_str = send_string

        def recv(self, flags=0, *a, **k):
            self._check()
            err('recv')
            if not self.waiting:
                problem('receive-without-request', 'no request is outstanding')
            limit = None
            if flags & 1:
                limit = loop.now + 0.01
            elif self.timeout is not None and self.timeout >= 0:
                limit = loop.now + self.timeout / 1000.0
            self._wait(limit)
            if self.reply is None:
                events.append(('recv', 'again'))
                raise Again(11, 'Resource temporarily unavailable')
            n, t = self.reply
            self.waiting = False
            self.reply = None
            state['answered'] += 1
            events.append(('recv', n))
            return t

        def recv_string(self, flags=0, encoding='utf-8'):
            return self.recv(flags).decode(encoding)

        recv_str = recv_string

        def _wait(self, limit):
            while self.reply is None and loop.q and (limit is None or loop.q[0][0] <= limit):
                loop.run(until=loop.q[0][0])
            if self.reply is None:
                if limit is None or limit > HORIZON:
                    raise SimEnd()
                loop.now = max(loop.now, limit)

        def poll(self, timeout=None, flags=1):
            if timeout is None or timeout < 0:
                self._wait(None)
            else:
                self._wait(loop.now + timeout / 1000.0 + 1e-6)
            return 1 if self.reply is not None else 0

        def close(self, linger=None):
            self.closed = True

        def disconnect(self, addr):
            pass

    class Poller(object):
        def __init__(self):
            self.s = []

        def register(self, s, flags=1):
            self.s.append(s)

        def unregister(self, s):
            self.s.remove(s)

        def poll(self, timeout=None):
            return [(s, 1) for s in self.s if s.poll(timeout)]

    class Context(object):
        def __init__(self, io_threads=1):
            self.sockets = []

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        @classmethod
        def instance(cls):
            return cls()

        def socket(self, kind):
            if self.sockets or state.get('socket'):
                # a second socket would have a second outstanding request
                ctx.probe('second-socket')
            s = Socket(kind)
            state['socket'] = s
            self.sockets.append(s)
            return s

        def term(self):
            pass

        def destroy(self, linger=None):
            pass

    z = types.ModuleType('zmq')
    z.__dict__.update(Context=Context, Socket=Socket, Poller=Poller, ZMQError=ZMQError, Again=Again, ZMQBaseError=ZError,
                      ContextTerminated=ContextTerminated, REQ=3, REP=4, DEALER=5, ROUTER=6, PUB=1, SUB=2, PAIR=0, PUSH=8,
                      PULL=7, NOBLOCK=1, DONTWAIT=1, SNDMORE=2, POLLIN=1, POLLOUT=2, RCVTIMEO=27, SNDTIMEO=28, LINGER=17,
                      REQ_RELAXED=53, REQ_CORRELATE=52, EAGAIN=11, EFSM=156384763)
    z.error = types.ModuleType('zmq.error')
    z.error.__dict__.update(ZMQError=ZMQError, Again=Again)

    def sleep(t):
        loop.now += t
        loop.run(until=loop.now)
        if loop.now > HORIZON:
            raise SimEnd()

    saved = {k: sys.modules.get(k) for k in ('zmq', 'zmq.error')}
    saved_sleep = time.sleep
    console = env.Sink()
    outcome = None
    sys.modules['zmq'] = z
    sys.modules['zmq.error'] = z.error
    time.sleep = sleep
    try:
        with contextlib.redirect_stdout(console):
            try:
                runpy.run_path(os.path.join(env.REPO, 'semantic_codec', 'distributed', 'modifier.py'), run_name='__main__')
                outcome = 'finished'
            except SimEnd:
                outcome = 'waiting'
            except Violation:
                raise
            except SystemExit as e:
                outcome = 'exit:{}'.format(e.code)
            except ZError:
                outcome = 'transport-error'
            except Exception as e:
                if not env.in_repo(e.__traceback__):
                    raise
                outcome = 'exception:' + type(e).__name__
    finally:
        time.sleep = saved_sleep
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    if broken:
        raise Violation(*broken[0])          # even if the client caught it
    ctx.simtime += loop.now
    ctx.log(outcome, events)
    text = console.text()
    ctx.require(any(e[0] == 'connect' for e in events) or 'connect' in [o for o, _ in case['errors']], 'never-connects')
    if state['failed']:
        ctx.require(outcome not in ('finished', 'exit:None', 'exit:0', 'waiting'), 'error-not-raised',
                    lambda: 'the transport failed but the client ended with {}'.format(outcome))
    elif case['stall'] is not None and state['sends'] > case['stall']:
        ctx.require(outcome == 'waiting' and state['sends'] == case['stall'] + 1, 'does-not-wait',
                    lambda: 'the server stalls at request {} but the client: {} after {} requests'.format(
                        case['stall'], outcome, state['sends']))
    else:
        ctx.require(outcome in ('finished', 'exit:None', 'exit:0'), 'client-fails', lambda: str(outcome))
        ctx.require(state['sends'] == 10 and state['answered'] == 10, 'not-ten-requests',
                    lambda: '{} requests, {} replies'.format(state['sends'], state['answered']))
        ctx.probe('finished')
    # every reply is reported, under its own request, in order
    seen = []
    for line in text.split('\n'):
        for k in range(10):
            t = 'qos' + chr(97 + k) * 3 + 'z'
            if t in line:
                num = [int(x) for x in re.findall(r'(?<![\w.])\d+(?![\w.])', line.replace(t, ''))]
                ctx.require(k in num, 'reply-under-wrong-request', lambda: 'reply {}: {!r}'.format(k, line))
                seen.append(k)
    ctx.require(seen == sorted(seen) and len(set(seen)) == len(seen), 'replies-out-of-order', lambda: str(seen))
    if case['content'] in ('token', 'binary'):
        ctx.require(seen == list(range(state['answered'])), 'reply-not-reported',
                    lambda: '{} replies were received, reported: {}'.format(state['answered'], seen))
        if state['failed'] and state['answered'] < 10:
            ctx.require(state['answered'] not in seen, 'error-reported-as-reply')
    if case['content'] == 'equal':
        ctx.require(text.count('World') == state['answered'], 'reply-not-reported',
                    lambda: '{} replies, {} reported'.format(state['answered'], text.count('World')))
    ctx.probe('equal-replies', int(case['content'] == 'equal'))
    ctx.probe('empty-reply', int(case['content'] == 'empty'))
    ctx.probe('binary-reply', int(case['content'] == 'binary'))
    ctx.probe('spoken-reply', int(case['content'] == 'words'))
    ctx.nontrivial = bool(any(case['delays']) or case['errors'] or case['reset'])
    ctx.sig(case, events)
