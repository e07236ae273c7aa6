# Threads, queues, locks and external programs of a simulated program. The threads are real ones of
# the interpreter, but only the one that holds the baton runs: the seed says which one gets it next,
# at every blocking operation and at seeded lines of the code under test.
module Sim
  class Sched
    class Stuck < Exception; end
    Task = Struct.new(:id, :th, :gate, :cond, :deadline, :what, :value, :exc, :done, :killed, :pending, :background)

    class << self
      attr_accessor :active
      # the simulation, if the current thread takes part in it
      def here
        s = @active
        s if s && s.by_thread.key?(Thread.current)
      end
      # called at seeded lines
      def preempt
        s = here
        return unless s && !s.dead
        Sim.count('fault.preempted at a line')
        s.reschedule
        s.arm
      end
    end

    attr_reader :by_thread, :tasks, :clock, :dead
    def initialize(preempt: 0)
      @by_thread = {}.compare_by_identity
      @tasks = []
      @clock = 0
      @preempt = preempt
      @dead = false
    end
    def me = @by_thread[Thread.current]
    def of(thread) = @by_thread[thread]

    def run
      Sched.active = self
      @main = adopt(Thread.current)
      arm
      yield
    ensure
      Sim.arm_line(-1)
      finish
      Sched.active = nil
    end
    def arm
      return Sim.arm_line(-1) if @preempt == 0
      # mostly within the first statements after an interaction
      Sim.arm_line(Sim.chance(1, 2) ? Sim.draw(12) : Sim.draw(@preempt))
    end
    def adopt(th)
      t = Task.new(@tasks.size, th, Thread::Queue.new)
      @tasks << t
      @by_thread[th] = t
    end
    def spawn(background: false, &block)
      gate = Thread::Queue.new
      t = nil
      th = Thread.__sim_new do
        Thread.current.report_on_exception = false
        gate.__sim_pop
        begin
          begin
            check_pending(t)
            t.value = block.call
          rescue Exception => e
            t.exc = e unless e.equal?(KILL)
            Sim.trace("thread #{t.id} ends: #{e.class}") unless e.equal?(KILL)
          end
          t.done = true
          Sim.trace("thread #{t.id} done")
          pass(choose) unless @over
        rescue Exception => e
          warn "scheduler: #{e.full_message}"
        end
      end
      t = Task.new(@tasks.size, th, gate)
      t.background = background
      @tasks << t
      @by_thread[th] = t
      Sim.count('threads')
      reschedule
      th
    end
    KILL = Class.new(Exception).new('killed')

    # ---- the baton ----------------------------------------------------------------------------------
    def ready?(t)
      return false if t.done
      return true if t.killed || t.pending || t.cond.nil? || @dead
      t.cond.call || (t.deadline && t.deadline <= @clock)
    end
    # the next to run, nil if nobody can
    def choose
      loop do
        r = @tasks.find_all { |t| ready?(t) }
        unless r.empty?
          t = r.size == 1 ? r[0] : r[Sim.draw(r.size)]
          Sim.count('switches') if t != me
          return t
        end
        at = @tasks.reject(&:done).filter_map(&:deadline).min
        if at
          @clock = at
          next
        end
        waiting = @tasks.reject(&:done)
        return if waiting.empty?
        # nobody can ever go on
        @stuck = waiting.map { |t| "#{t == @main ? 'the program' : "thread #{t.id}"} waits for #{t.what}" }.join(', ')
        @dead = true
        @main.pending = Stuck.new(@stuck)
        return @main unless @main.done
      end
    end
    attr_reader :stuck
    def pass(t)
      t.gate.__sim_push(1) if t
    end
    def reschedule
      return if @over
      m = me
      t = choose
      return check_pending(m) if t.equal?(m)
      pass(t)
      m.gate.__sim_pop
      check_pending(m)
    end
    def check_pending(t)
      if t.killed && !t.dying
        t.dying = true
        raise KILL
      elsif (e = t.pending)
        t.pending = nil
        raise e
      end
    end
    # Waits until the condition holds; false if the time is over before
    def wait(what, timeout = nil, &cond)
      raise KILL if @over
      raise Stuck, @stuck if @dead && !cond.call
      m = me
      Sim.trace("thread #{m.id} waits for #{what}") unless cond.call
      m.what = what
      m.cond = cond
      m.deadline = timeout && @clock + (timeout * 1000).to_i
      begin
        reschedule
        raise Stuck, @stuck if @dead && !cond.call
      ensure
        m.cond = m.deadline = nil
      end
      cond.call
    end
    def sleep(ms, what = 'time')
      wait(what, ms / 1000.0) { false } unless @dead
    end
    # what is still there when the program is over
    def leftovers = @tasks.reject { |t| t.done || t == @main || t.background }
    # lets everything run to its end (or to where it waits for ever)
    def drain
      wait('the rest') { @tasks.all? { |t| t == @main || t.done || !ready?(t) } }
    end
    def finish
      @over = true
      @dead = true
      @tasks.each do |t|
        next if t.done || t == @main
        t.th.__sim_kill
        t.th.__sim_join
      end
    end
    Task.class_eval { attr_accessor :dying }
  end
end

class Thread
  class << self
    alias __sim_new new
    alias __sim_fork fork
    def new(*args, **kw, &block)
      s = Sim::Sched.here or return __sim_new(*args, **kw, &block)
      raise ThreadError, 'must be called with a block' unless block
      if Sim.faulty.thread_fails?
        Sim.count('fault.no more threads')
        raise ThreadError, "can't create Thread: Resource temporarily unavailable"
      end
      s.spawn { block.call(*args, **kw) }
    end
    def start(*args, **kw, &block) = new(*args, **kw, &block)
    def fork(*args, **kw, &block) = new(*args, **kw, &block)
    alias __sim_pass pass
    def pass
      s = Sim::Sched.here or return __sim_pass
      s.reschedule
      nil
    end
  end
  alias __sim_join join
  alias __sim_value value
  alias __sim_kill kill
  alias __sim_alive alive?
  def join(limit = nil)
    s = Sim::Sched.here
    t = s && s.of(self) or return(limit ? __sim_join(limit) : __sim_join)
    return unless s.wait("thread #{t.id} to end", limit) { t.done }
    Kernel.raise(t.exc) if t.exc
    self
  end
  def value
    s = Sim::Sched.here
    t = s && s.of(self) or return __sim_value
    join
    t.value
  end
  def kill
    s = Sim::Sched.here
    t = s && s.of(self) or return __sim_kill
    t.killed = true unless t.done
    if t == s.me then s.check_pending(t) else s.reschedule end
    self
  end
  alias exit kill
  alias terminate kill
  alias __sim_raise raise
  def raise(*args)
    s = Sim::Sched.here
    t = s && s.of(self) or return __sim_raise(*args)
    return if t.done
    return Kernel.raise(*args) if t == s.me
    t.pending = args[0].is_a?(Class) ? args[0].new(*args[1, 1]) : args[0].is_a?(String) ? RuntimeError.new(args[0]) : (args[0] || RuntimeError.new('unhandled exception'))
    s.reschedule
  end
  def alive?
    s = Sim::Sched.here
    t = s && s.of(self) or return __sim_alive
    !t.done
  end

  class Queue
    alias __sim_pop pop
    alias __sim_push push
    def pop(non_block = false, timeout: nil)
      s = Sim::Sched.here or return(timeout ? __sim_pop(non_block, timeout: timeout) : __sim_pop(non_block))
      s.reschedule
      return __sim_pop(true) if non_block
      return nil unless s.wait('a queue', timeout) { !empty? || closed? }
      empty? ? nil : __sim_pop(true)
    end
    alias shift pop
    alias deq pop
    def push(v)
      __sim_push(v)
      s = Sim::Sched.here
      s.reschedule if s
      self
    end
    alias << push
    alias enq push
  end
  class SizedQueue
    alias __sim_pop pop
    alias __sim_push push
    def pop(non_block = false, timeout: nil)
      s = Sim::Sched.here or return(timeout ? __sim_pop(non_block, timeout: timeout) : __sim_pop(non_block))
      s.reschedule
      return __sim_pop(true) if non_block
      return nil unless s.wait('a queue', timeout) { !empty? || closed? }
      empty? ? nil : __sim_pop(true)
    end
    alias shift pop
    alias deq pop
    def push(v, non_block = false, timeout: nil)
      s = Sim::Sched.here or return(timeout ? __sim_push(v, non_block, timeout: timeout) : __sim_push(v, non_block))
      return nil unless non_block || s.wait('room in a queue', timeout) { size < max || closed? }
      __sim_push(v, true)
      s.reschedule
      self
    end
    alias << push
    alias enq push
  end
  class Mutex
    alias __sim_lock lock
    alias __sim_synchronize synchronize
    def lock
      s = Sim::Sched.here or return __sim_lock
      s.reschedule
      s.wait('a lock') { !locked? } until try_lock
      self
    end
    def synchronize
      Sim::Sched.here or return __sim_synchronize { yield }
      lock
      begin
        yield
      ensure
        unlock if owned?
      end
    end
  end
  class ConditionVariable
    alias __sim_wait wait
    alias __sim_signal signal
    alias __sim_broadcast broadcast
    def wait(mutex, timeout = nil)
      s = Sim::Sched.here or return __sim_wait(mutex, timeout)
      w = [false]
      (@__sim_waiters ||= []) << w
      mutex.unlock
      begin
        s.wait('a condition', timeout) { w[0] }
      ensure
        @__sim_waiters.delete_if { |x| x.equal?(w) }
        mutex.lock
      end
      self
    end
    def signal
      s = Sim::Sched.here or return __sim_signal
      w = (@__sim_waiters || []).shift and w[0] = true
      s.reschedule
      self
    end
    def broadcast
      s = Sim::Sched.here or return __sim_broadcast
      (@__sim_waiters || []).each { |w| w[0] = true }
      s.reschedule
      self
    end
  end
end

module Sim
  # What the outside world does; the scenario replaces it
  class Outside
    def thread_fails? = false
    def popen(cmd) = raise(Errno::ENOENT, cmd.first)
    def system(cmd) = nil
    def backtick(cmd) = ''
    def file(path) = nil
  end
  class << self
    attr_accessor :faulty
  end
  self.faulty = Outside.new
end

class IO
  class << self
    alias __sim_popen popen
    def popen(*args, **kw, &block)
      Sim::Sched.here or return __sim_popen(*args, **kw, &block)
      args.shift if args[0].is_a?(Hash)
      cmd = args[0]
      cmd = cmd.reject { |a| a.is_a?(Hash) } if cmd.is_a?(Array)
      cmd = Shellwords.split(cmd) if cmd.is_a?(String)
      io = Sim.faulty.popen(cmd)
      return io unless block
      begin
        block.call(io)
      ensure
        io.close
      end
    end
  end
end
class Object
  def system(*args, **kw)
    Sim::Sched.here or return super
    args.shift if args[0].is_a?(Hash)
    args = Shellwords.split(args[0]) if args.size == 1 && args[0].is_a?(String)
    Sim.faulty.system(args)
  end
  def `(cmd)
    Sim::Sched.here or return super
    Sim.faulty.backtick(cmd)
  end
  def sleep(n = nil)
    s = Sim::Sched.here or return super
    n ? s.sleep((n * 1000).to_i) : s.wait('being woken up') { false }
  end
  private :system, :`, :sleep
end

# files of the simulated program; everything else is as it is
class File
  class << self
    %w{exist? file? realpath readlines read foreach readable? realdirpath stat directory? size}.each do |m|
      real = instance_method(m) rescue IO.singleton_class.instance_method(m)
      define_method(m) do |path, *args, **kw, &block|
        f = Sim::Sched.here && Sim.faulty.file(path.to_s)
        next real.bind_call(self, path, *args, **kw, &block) unless f
        case m
        when 'exist?', 'file?', 'readable?' then f.there?
        when 'directory?' then false
        when 'realpath', 'realdirpath' then f.real
        when 'readlines' then f.content(kw[:encoding]).lines
        when 'read' then f.content(kw[:encoding])
        when 'foreach' then f.content(kw[:encoding]).each_line(&block)
        when 'size' then f.content(nil).bytesize
        else raise Errno::ENOENT, path.to_s
        end
      end
    end
  end
end
