# Everything around the modem: threads, clock, serial port and log, under the control of the harness.  Used in symbolic runs and in replays alike.
#
# Threads run one at a time and change over only at "points": before every statement of modem.py, and inside the operations below (waiting for a lock, sleeping,
# reading the port).  Which thread continues, and how long a wait takes, are inputs of the harness like any other.
import threading as _threads

from engine.explore import Stop

CURRENT = [None]
UNIT = 64              # clock ticks per second


class Killed(Stop):
  pass


class Deadlock(Exception):
  pass


class SerialException(IOError):
  pass


class Task(object):
  def __init__(self, name, target, args=(), kwargs=None):
    self.name = name
    self.target = target
    self.args = args
    self.kwargs = kwargs or {}
    self.sem = _threads.Semaphore(0)
    self.ready = None        # condition it waits for
    self.why = None
    self.sleeping = False
    self.since = 0
    self.due = 0             # asleep until then
    self.joining = False     # waits for another thread, but not for ever
    self.started = False
    self.done = False
    self.error = None
    self.kills = 0
    self.os = None


class World(object):
  def __init__(self, c, preemptions=0, waits=2, script=()):
    self.c = c
    self.preemptions = preemptions      # how many more times a thread may be interrupted
    self.waits = waits                  # how many more waits of a length of their own
    self.clock = 0
    self.script = list(script)          # (number of writes after which it may arrive, list of byte values | "error" | "busy")
    self.sent = []                      # what was written
    self.opened = []                    # arguments of each time the port was opened
    self.on_write = None
    self.refuse = 0                     # how many times opening the port fails (after the first time)
    self.closed = 0
    self.flushed = 0
    self.cancelled = False
    self.chunk = None
    self.n = 0
    self.sleeps = 0
    self.main = Task("main", None)
    self.main.started = True
    self.current = self.main
    self.tasks = [self.main]
    self.failure = None
    self.points = 0
    self.brokers = []                   # the bridge: brokers it connected to,
    self.published = []                 # what it published,
    self.publishing = None              # called before each
    self.signals = 1                    # how many signals arrive, the last of them an interrupt

  # ------------------------------------------------------------ scheduling
  def pick(self, what, options):
    if len(options) == 1: return options[0]
    self.n += 1
    return options[self.c.pick("%s.%d" % (what, self.n), 0, len(options) - 1)]

  def runnable(self, but=None):
    r = []
    for t in self.tasks:
      if t is but or t.done or not t.started: continue
      if t.ready is None or t.ready(): r.append(t)
    return r

  def point(self):
    me = self.current
    self.alive(me)
    self.points += 1
    if self.preemptions <= 0: return
    others = [t for t in self.runnable(me) if not t.sleeping or self.waits > 0]
    if not others: return
    to = self.pick("interrupt", [None] + others)
    if to is None: return
    self.preemptions -= 1
    self.go(to)

  def alive(self, t):
    if t.kills:
      t.kills += 1
      if t.kills > 50:
        _threads.Semaphore(0).acquire()   # something swallows the unwinding: leave it here
      raise Killed()

  def go(self, to):
    """hand over to another thread, until somebody hands back"""
    me = self.current
    if to is me: return
    self.current = to
    if to.os is None and to is not self.main:
      to.os = _threads.Thread(target=self.body, args=(to,))
      to.os.setDaemon(True)
      to.os.start()
    else:
      to.sem.release()
    if not me.done:
      me.sem.acquire()
      self.resumed(me)

  def resumed(self, me):
    self.alive(me)
    if me is self.main and self.failure is not None:
      e, self.failure = self.failure, None
      raise e

  def body(self, t):
    try:
      t.target(*t.args, **t.kwargs)
    except Killed:
      pass
    except Exception as e:
      t.error = e
    except BaseException as e:
      self.failure = e
    t.done = True
    if t.kills or self.failure is not None:
      self.current = self.main
      self.main.sem.release()
      return
    try:
      self.next(t)
    except BaseException as e:
      self.failure = e
      self.current = self.main
      self.main.sem.release()

  def next(self, me):
    """me cannot continue: somebody else has to"""
    rs = self.runnable()
    if not rs:
      if self.main.done or me is self.main: raise Deadlock(", ".join([str(t.why) for t in self.tasks if not t.done]))
      self.failure = Deadlock(", ".join([str(t.why) for t in self.tasks if not t.done]))
      self.go(self.main)
      return
    awake = [t for t in rs if not t.sleeping]
    asleep = [t for t in rs if t.sleeping]
    # a sleeper can wake before the others do anything, but only so often; afterwards everything else happens first
    # (and then sleepers wake in the order in which they went to sleep)
    if self.waits <= 0: asleep = [] if awake else asleep[:1] and [min(asleep, key=lambda t: t.since)]
    self.go(self.pick("next", awake + asleep))

  def block(self, ready, why, sleeping=False):
    me = self.current
    self.alive(me)
    me.ready, me.why, me.sleeping = ready, why, sleeping
    self.sleeps += 1
    me.since = self.sleeps
    try:
      if sleeping or not ready(): self.next(me)
    finally:
      me.ready, me.why, me.sleeping = None, None, False

  def wake(self, ticks):
    """the clock when a sleeper wakes: at least what it asked for"""
    if self.waits > 0:
      self.waits -= 1
      self.n += 1
      d = self.c.int("waited.%d" % self.n, ticks, max(ticks, 3600 * UNIT))
    else: d = max(ticks, 3600 * UNIT)
    self.clock = self.clock + d

  def sleep(self, seconds):
    ticks = max(1, int(seconds * UNIT))
    self.current.due = self.clock + ticks
    self.block(lambda: True, "sleep", True)
    self.wake(ticks)

  def drain(self):
    """until nothing else can happen"""
    me = self.current
    me.why = "drain"
    while True:
      me.ready = lambda: False
      rs = self.runnable(me)
      me.ready = None
      if not rs: return
      rs = [t for t in rs if not t.sleeping] or rs
      me.ready = lambda: not [t for t in self.tasks if t is not me and t.started and not t.done and (t.ready is None or t.ready())]
      to = self.pick("next", rs)
      self.go(to)
      me.ready = None

  def pause(self):
    """until a signal arrives: not before nothing else can happen"""
    self.drain()
    self.signals -= 1
    if self.signals <= 0: raise KeyboardInterrupt()

  def spawn(self, name, f, *args):
    t = Task(name, f, args)
    t.started = True
    self.tasks.append(t)
    return t

  def end(self):
    """unwind all other threads"""
    self.main.ready = None
    for t in self.tasks:
      if t is self.main or t.done or t.os is None: continue
      t.kills = 1
      self.current = t
      t.sem.release()
      if t.os is not None: t.os.join(10)
    self.current = self.main

  # ------------------------------------------------------------ serial port
  def available(self):
    if self.cancelled or (self.chunk is not None and len(self.chunk)): return True
    return len(self.script) > 0 and self.script[0][0] <= len(self.sent)

  def read(self, port, size):
    if not port.is_open: raise SerialException("port is closed")
    if port.timeout is None: self.block(self.available, "read")
    else:
      # a read with a timeout may also return without data
      if not self.available() or self.pick("read", [True, False]) is False:
        self.sleep(port.timeout or 1.0 / UNIT)
        if not port.is_open: raise SerialException("port is closed")
        if not self.available(): return ""
    if self.cancelled:
      self.cancelled = False
      return ""
    if self.chunk is None or not len(self.chunk):
      self.chunk = self.script.pop(0)[1]
      if self.chunk == "error":
        self.chunk = None
        raise SerialException("device disconnected")
      if self.chunk == "nothing":
        self.chunk = None
        return ""
    n = len(self.chunk) if size is None else min(size, len(self.chunk))
    r, self.chunk = self.chunk[:n], self.chunk[n:]
    return self.c.tostr(r)


def W(): return CURRENT[0]


def point():
  w = CURRENT[0]
  if w is not None: w.point()


class Module(object):
  def __init__(self, name, **k):
    self.__name__ = name
    self.__dict__.update(k)


# ------------------------------------------------------------ serial
class Serial(object):
  def __init__(self, port=None, baudrate=9600, bytesize=8, parity="N", stopbits=1, timeout=None, xonxoff=False, rtscts=False, write_timeout=None,
               dsrdtr=False, inter_byte_timeout=None, exclusive=None, **k):
    self.port, self.baudrate, self.timeout = port, baudrate, timeout
    self.is_open = False
    self.kw = dict(bytesize=bytesize, parity=parity, stopbits=stopbits, timeout=timeout, xonxoff=xonxoff, rtscts=rtscts, dsrdtr=dsrdtr, exclusive=exclusive)
    if port is not None: self.open()

  def open(self):
    w = W()
    w.point()
    if len(w.opened) > 0 and w.refuse > 0:
      w.refuse -= 1
      raise SerialException("could not open port")
    w.opened.append((self.port, self.baudrate, self.kw))
    self.is_open = True

  def close(self):
    W().closed += 1
    self.is_open = False

  def isOpen(self): return self.is_open
  def read(self, size=None): return W().read(self, size)
  def write(self, data):
    w = W()
    if not self.is_open: raise SerialException("port is closed")
    w.point()
    w.sent.append(list(bytearray(data)) if isinstance(data, (str, bytearray)) else list(data))
    if w.on_write: w.on_write(w.sent[-1])
    w.point()
    return len(data)
  def flush(self): W().flushed += 1
  def flushInput(self): pass
  def flushOutput(self): pass
  def reset_input_buffer(self): pass
  def reset_output_buffer(self): pass
  def cancel_read(self): W().cancelled = True
  def cancel_write(self): pass
  @property
  def in_waiting(self):
    w = W()
    if w.chunk: return len(w.chunk)
    return len(w.script[0][1]) if w.available() and w.script and isinstance(w.script[0][1], list) else 0
  def inWaiting(self): return self.in_waiting


serial = Module("serial", Serial=Serial, SerialException=SerialException, SerialTimeoutException=SerialException,
                PARITY_NONE="N", PARITY_EVEN="E", PARITY_ODD="O", STOPBITS_ONE=1, STOPBITS_TWO=2, EIGHTBITS=8, SEVENBITS=7)
serial.serialutil = Module("serial.serialutil", SerialException=SerialException)


# ------------------------------------------------------------ threading
class Thread(object):
  def __init__(self, group=None, target=None, name=None, args=(), kwargs=None):
    self.target, self.name, self.args, self.kwargs = target, name or "thread", args, kwargs
    self.daemon = False
    self.task = None
    self.ident = None

  def setDaemon(self, d): self.daemon = d
  def run(self): self.target(*self.args, **(self.kwargs or {}))
  def start(self):
    w = W()
    self.task = Task(self.name, self.run)
    self.task.started = True
    w.tasks.append(self.task)
    self.ident = len(w.tasks)
    w.point()
  def join(self, timeout=None):
    t = self.task
    if t is None: raise RuntimeError("cannot join thread before it is started")
    if t is W().current: raise RuntimeError("cannot join current thread")
    w = W()
    if timeout is None: return w.block(lambda: t.done, "join")
    # what can happen within the time given happens first
    due = w.clock + max(0, int(timeout * UNIT))
    me = w.current

    def over():
      if t.done: return True
      for o in w.tasks:
        if o is me or o.done or not o.started or o.joining: continue
        if not o.sleeping:
          if o.ready is None or o.ready(): return False
        elif o.due <= due: return False
      return True

    me.joining = True
    try: w.block(over, "join")
    finally: me.joining = False
    if not t.done and w.clock < due: w.clock = due
  def is_alive(self): return self.task is not None and not self.task.done
  isAlive = is_alive


class Lock(object):
  reentrant = False

  def __init__(self):
    self.owner = None
    self.count = 0

  def acquire(self, blocking=True, timeout=-1):
    w = W()
    w.point()
    me = w.current
    if self.reentrant and self.owner is me:
      self.count += 1
      return True
    if self.owner is not None:
      if not blocking: return False
      w.block(lambda: self.owner is None, "lock")
    self.owner = me
    self.count = 1
    return True

  def release(self):
    if self.owner is None: raise RuntimeError("release unlocked lock")
    self.count -= 1
    if not self.count: self.owner = None

  def locked(self): return self.owner is not None
  def __enter__(self): return self.acquire()
  def __exit__(self, *a):
    self.release()
    return False


class RLock(Lock):
  reentrant = True


class Condition(object):
  def __init__(self, lock=None):
    self.lock = lock or RLock()
    self.acquire, self.release = self.lock.acquire, self.lock.release
    self.waiting = []

  def __enter__(self): return self.lock.acquire()
  def __exit__(self, *a):
    self.lock.release()
    return False

  def wait(self, timeout=None):
    token = [False]
    self.waiting.append(token)
    count, self.lock.owner = self.lock.count, None
    r = waitfor(lambda: token[0], timeout)
    if token in self.waiting: self.waiting.remove(token)
    w = W()
    if self.lock.owner is not None: w.block(lambda: self.lock.owner is None, "lock")
    self.lock.owner, self.lock.count = w.current, count
    return r

  def notify(self, n=1):
    for t in self.waiting[:n]: t[0] = True
    self.waiting = self.waiting[n:]

  def notify_all(self): self.notify(len(self.waiting))
  notifyAll = notify_all


def waitfor(cond, timeout):
  """wait for a condition, or so many seconds"""
  w = W()
  w.point()
  if timeout is None:
    w.block(cond, "wait")
    return True
  if not cond():
    w.sleep(timeout)
  return cond()


class Event(object):
  def __init__(self): self.flag = False
  def set(self): self.flag = True
  def clear(self): self.flag = False
  def is_set(self): return self.flag
  isSet = is_set
  def wait(self, timeout=None): return waitfor(lambda: self.flag, timeout)


threading = Module("threading", Thread=Thread, Lock=Lock, RLock=RLock, Event=Event, Condition=Condition,
                   current_thread=lambda: W().current, currentThread=lambda: W().current)


# ------------------------------------------------------------ time
def seconds(ticks):
  return ticks / float(UNIT)


class Delta(object):
  def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, ticks=None):
    self.t = ticks if ticks is not None else (days * 86400 + hours * 3600 + minutes * 60 + seconds) * UNIT + (milliseconds * 1000 + microseconds) * UNIT / 1000000.0
  def total_seconds(self): return self.t / float(UNIT)
  @property
  def days(self): return 0
  @property
  def seconds(self): return self.t // UNIT
  @property
  def microseconds(self): return (self.t % UNIT) * (1000000 // UNIT)
  def __lt__(self, o): return self.t < o.t
  def __le__(self, o): return self.t <= o.t
  def __gt__(self, o): return self.t > o.t
  def __ge__(self, o): return self.t >= o.t
  def __eq__(self, o): return self.t == o.t
  def __add__(self, o): return Stamp(self.t + o.t) if isinstance(o, Stamp) else Delta(ticks=self.t + o.t)
  def __sub__(self, o): return Delta(ticks=self.t - o.t)


class Stamp(Delta):
  def __init__(self, t): self.t = t
  def __add__(self, o): return Stamp(self.t + o.t)
  def __sub__(self, o): return Delta(ticks=self.t - o.t) if isinstance(o, Stamp) else Stamp(self.t - o.t)


class datetime_(object):
  @staticmethod
  def now(tz=None): return Stamp(W().clock)
  utcnow = now


datetime = Module("datetime", datetime=datetime_, timedelta=Delta)
time = Module("time", sleep=lambda s: W().sleep(s), time=lambda: seconds(W().clock), clock=lambda: seconds(W().clock))


class Logger(object):
  def __getattr__(self, n):
    if n.startswith("__"): raise AttributeError(n)
    return lambda *a, **k: None
  def isEnabledFor(self, l): return False


logging = Module("logging", getLogger=lambda *a: Logger(), DEBUG=10, INFO=20, WARNING=30, WARN=30, ERROR=40, CRITICAL=50)
for _n in ("debug", "info", "warning", "warn", "error", "exception", "critical"): setattr(logging, _n, lambda *a, **k: None)

# ------------------------------------------------------------ what the bridge to MQTT needs
class Published(object):
  """what publish returns"""
  def __init__(self, rc): self.rc, self.mid = rc, 1
  def __iter__(self): return iter((self.rc, self.mid))
  def is_published(self): return self.rc == 0
  def wait_for_publish(self, timeout=None): pass


class Client(object):
  """a client of a broker: what is published once it is connected to it arrives there, unless the harness lets the attempt fail"""
  def __init__(self, client_id="", clean_session=True, userdata=None, protocol=4, transport="tcp"):
    self.userdata = userdata
    self.on_connect = self.on_message = self.on_disconnect = self.on_publish = self.on_subscribe = self.on_log = None
    self.open = False
    self.running = False

  def __getattr__(self, n):
    if n.startswith("_"): raise AttributeError(n)
    return lambda *a, **k: 0         # settings

  def connect(self, host, port=1883, keepalive=60, bind_address=""):
    w = W()
    w.point()
    w.brokers.append((host, port))
    self.open = True
    return 0

  def connect_async(self, *a, **k): return self.connect(*a, **k)

  def accepted(self):
    if self.on_connect: self.on_connect(self, self.userdata, {"session present": 0}, 0)

  def loop_start(self):
    if self.running: return 3
    self.running = True
    w = W()
    w.block(lambda: True, "broker", True)    # the broker accepts after any time
    self.accepted()

  def loop_stop(self, force=False): self.running = False
  def is_connected(self): return self.open and self.running

  def loop(self, timeout=1.0, max_packets=1):
    if self.open and not self.running:
      self.running = True
      self.accepted()
    return 0

  def loop_forever(self, *a, **k):
    self.loop_start()
    W().pause()

  def disconnect(self):
    self.open = False
    return 0

  def publish(self, topic, payload=None, qos=0, retain=False):
    w = W()
    w.point()
    if topic is None or len(topic) == 0 or "+" in topic or "#" in topic: raise ValueError("Invalid topic.")
    if qos not in (0, 1, 2): raise ValueError("Invalid QoS level.")
    if payload is None: payload = ""
    if isinstance(payload, (list, tuple, dict, set)) or not hasattr(payload, "__len__"): raise TypeError("payload must be a string, bytearray, int, float or None.")
    if w.publishing is not None: w.publishing(topic, payload)
    if not self.open: return Published(4)
    w.published.append((topic, payload[:], qos, retain))
    w.point()
    return Published(0)


paho = Module("paho", mqtt=Module("paho.mqtt", client=Module("paho.mqtt.client", Client=Client, MQTTv31=3, MQTTv311=4, MQTT_ERR_SUCCESS=0, MQTT_ERR_NO_CONN=4)))
signal = Module("signal", pause=lambda: W().pause(), signal=lambda n, f: None, SIGINT=2, SIGTERM=15, SIG_DFL=0, SIG_IGN=1)
platform = Module("platform", system=lambda: "Linux")
logging.Formatter = logging.StreamHandler = logging.NullHandler = lambda *a, **k: Logger()

MODULES = {"paho": paho, "signal": signal, "platform": platform, "serial": serial, "threading": threading, "datetime": datetime, "time": time, "logging": logging}
