# C35, C38: importing generated C++ headers through simulated compilers, threads and job servers.
module Sim
  # What is outside of the program: compilers, files, make's job server
  class Toolchain < Outside
    Run = Struct.new(:file, :kind)
    attr_reader :runs, :fired, :running, :most
    attr_accessor :model, :macros, :variant, :server, :parallel
    def initialize
      @runs = []
      @faults = {}
      @fired = []
      @scratch = []
      @running = 0
      @most = 0
      @threads_left = nil
    end
    def plan(what, nth, kind) = (@faults[[what, nth]] = kind)
    def fail_threads(n) = (@threads_left = n)
    def fault(what, kind)
      @fired << kind
      Sim.count("fault.#{kind}")
      Sim.trace("  -- #{what}: #{kind}")
    end
    def thread_fails?
      return false unless @threads_left
      @threads_left -= 1
      return false if @threads_left >= 0
      @fired << 'no more threads'
      true
    end
    def file(path) = @model&.file(path)

    def backtick(cmd)
      Sim.set_status(1)
      ''
    end
    def system(cmd)
      out = cmd.find { |a| a.start_with?('-fxml=') } or return nil
      @scratch << out.sub('-fxml=', '')
      file = cmd.find { |a| @model.file(a) }
      n = @runs.size
      @runs << Run.new(file, :gccxml)
      k = @faults[[:run, n]]
      case k
      when 'no such program'
        fault('gccxml', k)
        return nil
      when 'compiler fails', 'compiler killed'
        fault('gccxml', k)
        Sim.set_status(k == 'compiler fails' ? 256 : 9)
        return false
      end
      wait(n)
      text = @model.report(@model.file(file), macros_of(cmd), kind: :gccxml)
      if k == 'truncated output' || k == 'no output'
        fault('gccxml', k)
        text = k == 'no output' ? '' : text[0...Sim.draw(text.size - 2)]
      end
      File.write(out.sub('-fxml=', ''), text)
      Sim.set_status(0)
      true
    end
    def macros_of(cmd) = cmd.grep(/\A-D/).map { |x| x[2..-1] }
    def wait(n)
      @running += 1
      @most = [@most, @running].max
      Sim.bad('too-many-jobs', "#{@running} compilers run at the same time, with #{@server.granted} tokens of the job server") if @server && @running > @server.granted
      begin
        Sched.here.sleep(1 + Sim.small(50), 'a compiler')
      ensure
        @running -= 1
      end
    end

    # a process whose output is read
    class Pipe
      def initialize(tool, text, status, err)
        @tool, @text, @status, @err = tool, text, status, err
        @pos = 0
        @closed = false
      end
      def read(n = nil)
        raise IOError, 'closed stream' if @closed
        unless @waited
          @waited = true
          @tool.wait(nil)
        end
        if @err
          @tool.fault('reading', 'read error')
          raise Errno::EIO
        end
        r = @text[@pos..-1]
        r = r[0, n] if n
        @pos += r.size
        n && n > 0 && r.empty? ? nil : r
      end
      def readlines = read.lines
      def each_line(&b) = read.each_line(&b)
      def gets = (read if @pos < @text.size)
      def eof? = @pos >= @text.size
      def binmode = self
      def set_encoding(*) = self
      def pid = 4242
      def closed? = @closed
      def close
        return if @closed
        @closed = true
        @tool.reap(@status)
        nil
      end
    end
    attr_reader :unreaped
    def reap(status)
      @unreaped -= 1
      Sim.set_status(status)
    end
    def popen(cmd)
      n = @runs.size
      @runs << Run.new(nil, nil)
      @scratch.concat(cmd.grep(/orogen_gccxml_input/))
      k = @faults[[:run, n]]
      case k
      when 'no such program'
        fault(cmd[0], k)
        raise Errno::ENOENT, cmd[0]
      when 'too many processes'
        fault(cmd[0], k)
        raise Errno::EAGAIN, 'fork(2)'
      end
      file = cmd.reverse.find { |a| @model.file(a) || a.end_with?('.hpp') }
      @runs[n].file = file
      Sched.here.reschedule
      if cmd.include?('-E')
        text = cmd.reject { |a| a.end_with?('.hpp') }.join(' ') + "\n" + File.read(file)
      else
        text = @model.report(@model.file(file), macros_of(cmd), kind: cmd.include?('--castxml-gccxml') ? :castxml : :castxml_native,
                             variant: (@variant if @variant_file == @model.file(file)))
      end
      status = 0
      case k
      when 'compiler fails'
        status = 256
        text = Sim.chance(1, 2) ? '' : text[0...Sim.draw(text.size)]
      when 'compiler killed'
        status = [9, 11, 15][Sim.draw(3)]
        text = text[0...Sim.draw(text.size)]
      when 'truncated output' then text = text[0...Sim.draw(text.size - 2)]
      when 'no output' then text = ''
      end
      fault(cmd[0], k) if k && k != 'read error'
      @unreaped = (@unreaped || 0) + 1
      Pipe.new(self, text, status, k == 'read error')
    end
    attr_accessor :variant_file
    # the files it used are deleted with the garbage, which may be never
    def cleanup = @scratch.each { |f| File.unlink(f) if File.exist?(f) }
  end

  # make's job server, shared with other jobs. The program that imports holds one token.
  class JobServer
    attr_reader :free, :granted, :total, :put_extra
    def initialize(n, tool)
      @total = n
      @free = n - 1
      @granted = 1
      @tool = tool
      @fail = nil
      @gets = 0
    end
    def fail_at(n) = (@fail = n)
    def get
      s = Sched.here
      s.reschedule
      @gets += 1
      if @fail == @gets
        @tool.fault('the job server', 'job server gone')
        raise Errno::EBADF, 'job server'
      end
      s.wait('a token of the job server') { @free > 0 }
      @free -= 1
      @granted += 1
      return unless block_given?
      begin
        yield
      ensure
        put
      end
    end
    def put
      @free += 1
      @granted -= 1
      Sim.bad('tokens', "a token is given back that was never taken") if @granted < 0
      Sched.here&.reschedule
      nil
    end
    # other jobs come and go
    def others(s, n)
      s.spawn(background: true) do
        n.times do
          s.sleep(Sim.small(40), 'another job')
          break if s.dead
          next if @free == 0
          @free -= 1
          s.sleep(1 + Sim.small(60), 'another job')
          @free += 1
        end
      end
    end
  end

  class Import
    def draw(n) = Sim.draw(n)
    def chance(a, b) = Sim.chance(a, b)
    def pick(a) = Sim.pick(a)
    RUN_FAULTS = ['compiler fails', 'compiler killed', 'no such program', 'too many processes', 'read error', 'no output', 'truncated output'].freeze

    def initialize(faults)
      @faults = faults
      @tool = Toolchain.new
    end

    def snapshot(reg)
      r = {}
      reg.each(with_aliases: true) { |n, t| r[n] = n == t.name ? describe(t) : [:alias, t.name] }
      r
    end
    def describe(t)
      if t <= Typelib::CompoundType then [:rec, t.size, t.each_field.map { |n, ft| [n, ft.name, t.offset_of(n)] }]
      elsif t <= Typelib::EnumType then [:enum, t.size, t.keys]
      elsif t <= Typelib::OpaqueType then [:opaque]
      elsif t <= Typelib::ArrayType then [:array, t.deference.name, t.length]
      elsif t <= Typelib::PointerType then [:pointer, t.deference.name]
      elsif t <= Typelib::ContainerType then [:container, t.container_kind, t.deference.name]
      else [:num, t.size]
      end
    end

    def run
      Sim.faulty = @tool
      @model = Sim.span { Headers.new(@faults ? 1 + draw(4) : 1 + draw(2), 3 + draw(@faults ? 7 : 10), unusual: @faults ? (chance(1, 6) ? 2 : 0) : 2) }
      @tool.model = @model
      @macros = chance(1, 3) ? ['FEATURE'] : []
      reg = Typelib::Registry.new
      prepare(reg)
      @model.solve(@macros)
      (1 + draw(2)).times do |i|
        log_model if i == 0
        Sim.span { import(reg) }
        break if @broken
        @second = true if @model.files.any?(&:broken)
      end
      Sim.span { preprocess } if @faults && chance(1, 4)
    ensure
      @tool.cleanup
      Sim.faulty = Outside.new
    end
    def log_model
      @model.files.each { |f| Sim.log("#{f.path} includes #{f.includes.map(&:path).join(' ')}") }
      @model.ents.each do |e|
        d = case e.kind
            when :rec then "#{e.incomplete ? ' incomplete' : ''}#{e.virtuals ? ' virtual' : ''} { #{(e.bases.map { |b| ":#{b.access}#{' virtual' if b.virtual} #{b.ent.is_a?(Headers::Ent) ? b.ent.name : @model.printed(b.ent)}" } + e.fields.map { |f| "#{f.access == 'public' ? '' : "#{f.access} "}#{@model.printed(f.type)} #{f.name}#{":#{f.bits}" if f.bits}@#{f.off / 8}" }).join('; ')} } #{e.size}"
            when :typedef then " = #{@model.printed(e.target)}"
            when :enum then " #{e.values} #{e.esize}"
            end
        Sim.log("#{File.basename(e.file.path)}:#{e.xline} #{e.access} #{e.opaque ? 'opaque ' : ''}#{e.kind} #{@model.cxx_name(e)}#{d}#{" if #{e.cond}" if e.cond}")
      end
    end
    def prepare(reg)
      @opaques = @model.ents.find_all(&:opaque).map { |e| @model.tl([:ent, e]) }
      case draw(3)
      when 0 then Typelib::Registry.add_standard_cxx_types(reg)
      when 1 then reg.create_opaque('/before/Op', 0)
      end
      @given, @named = @opaques.partition { chance(1, 2) }
      @given.each { |n| reg.create_opaque(n, 0) }
      reg.create_compound('/before/Cmp') { |c| c.add('x', reg.create_numeric('/before/num', 4, :sint), 0) } if chance(1, 2)
    end

    def import(reg)
      files = @model.required.map(&:path)
      level = @faults ? 1 + draw(5) : chance(1, 3) ? 2 + draw(3) : 1
      gccxml = !@faults && files.size == 1 && chance(1, 5) || @faults && level == 1 && files.size == 1 && chance(1, 3)
      opts = { required_files: files, opaques: @named.to_set, define: @macros }
      opts[:parallel_level] = level if level > 1 || chance(1, 2)
      opts[:include] = ['/src/pkg'] if chance(1, 3)
      opts[:castxml] = false if gccxml
      server = nil
      if level > 1 && chance(2, 3)
        server = JobServer.new(2 + draw(4), @tool)
        opts[:job_server] = server
      end
      @tool.server = server
      @tool.fired.clear
      conflict = plan(files, server, level, gccxml)
      @model.files.each { |f| f.broken = nil }
      if Sim.chance(1, 8)
        f = pick(@model.files)
        f.broken = pick(@faults ? %i{gone denied io} : [:gone])
        f.broken = nil if f.broken == :gone && f.as_included != f.path     # its full path would not be known
        Sim.count('fault.source file unreadable')
      end
      before = snapshot(reg)
      Sim.log("import #{files.join(' ')} level #{level}#{' with a job server' if server}#{' gccxml' if gccxml}#{" unreadable #{f.path}" if f}")
      sched = Sched.new(preempt: [0, 60, 400][draw(3)])
      error = nil
      left = nil
      sched.run do
        server.others(sched, 1 + draw(4)) if server && chance(1, 2)
        begin
          load(reg, files, opts, gccxml)
        rescue Violation, Sched::Stuck
          raise
        rescue Exception => e
          error = e
        end
        left = sched.leftovers.size
        sched.wait('the other jobs', 10) { sched.tasks.none? { |t| t.background && !t.done } } if server
      rescue Sched::Stuck => e
        Sim.bad('stuck', "the import never ends: #{e.message}")
      end
      Sim.state("#{level} #{sched.tasks.size} #{error&.class} #{snapshot(reg).inspect}")
      Sim.trace("ends with #{error ? "#{error.class}: #{error.message[0, 200]} #{(error.backtrace || []).first}" : 'success'}")
      Sim.bad('left-running', "#{left} threads of the import are still there when it is over") if left > 0
      Sim.bad('left-running', "#{@tool.unreaped} compilers were not waited for") if (@tool.unreaped || 0) > 0
      Sim.bad('tokens', "#{server.granted} tokens of the job server are held when the import is over") if server && server.granted != 1 && !@tool.fired.include?('job server gone')
      Sim.nontrivial if sched.tasks.size > 2 || !@faults
      if error
        failed(reg, before, error, conflict, f)
      else
        unless (@tool.fired - ['no more threads']).empty? && !conflict
          Sim.bad('failure-lost', "the import succeeds although #{conflict ? "two headers define #{conflict} differently" : @tool.fired.join(', ')}")
        end
        Sim.count(@tool.fired.empty? ? 'imports' : 'imports in spite of a fault')
        imported(reg, before)
      end
    end
    def load(reg, files, opts, gccxml)
      case draw(gccxml ? 1 : 3)
      when 0 then Typelib::GCCXMLLoader.load(reg, files[0], 'c', **opts)
      when 1 then Typelib::CXX.load(reg, files[0], 'c', **opts)
      else reg.import(files[0], 'c', **opts)
      end
    end
    def plan(files, server, level, gccxml)
      @tool.instance_variable_get(:@faults).clear
      @tool.fail_threads(nil)
      @tool.variant = @tool.variant_file = nil
      return unless @faults
      base = @tool.runs.size
      kinds = RUN_FAULTS
      kinds -= ['too many processes', 'read error'] if gccxml
      (draw(3) == 0 ? 1 + draw(2) : 0).times { @tool.plan(:run, base + draw(files.size), pick(kinds)) }
      @tool.fail_threads(draw(level)) if level > 1 && chance(1, 15)
      server.fail_at(1 + draw(files.size * 2)) if server && chance(1, 12)
      return unless chance(1, 10)
      # one of the headers, compiled on its own, defines a record differently
      m = @model.required
      cand = @model.ents.find_all { |e| e.kind == :rec && !e.incomplete && @model.rep?([:ent, e]) && !e.opaque && m.count { |f| @model.visible(f).include?(e.file) } > 1 && m.include?(e.file) }
      return if cand.empty?
      @tool.variant = e = pick(cand)
      @tool.variant_file = pick(m.find_all { |f| @model.visible(f).include?(e.file) })
      return if gccxml
      Sim.count('fault.conflicting definitions')
      @model.tl([:ent, e])
    end

    # an import that failed
    def failed(reg, before, error, conflict, broken)
      ok = !@tool.fired.empty? || conflict || broken && broken.broken != :gone
      Sim.bad('import-fails', "#{error.class}: #{error.message[0, 300]} at #{(error.backtrace || []).grep(/gccxml|cxx/).first.to_s[/[^\/]+\z/]}") unless ok
      Sim.bad('misreported', "a failure (#{@tool.fired.join(', ')}) is reported as #{error.class}: #{error.message[0, 200]}") if error.is_a?(NameError) || error.is_a?(TypeError)
      Sim.count('imports that failed')
      after = snapshot(reg)
      if conflict
        before.each { |n, d| Sim.bad('registry-changed', "#{n} was #{d.inspect}, is #{after[n].inspect} after an import that failed") unless after[n] == d }
        @broken = true
      else
        Sim.bad('registry-changed', "an import that failed added #{(after.keys - before.keys).inspect}, removed #{(before.keys - after.keys).inspect}") unless after == before
      end
    end

    def imported(reg, before)
      after = snapshot(reg)
      before.each { |n, d| Sim.bad('registry-changed', "#{n} was #{d.inspect}, is #{after[n].inspect}") unless after[n] == d }
      types, aliases = @model.wanted(@model.required)
      types.each_value { |w| check_type(reg, after, w) }
      aliases.each { |n, t| Sim.bad('alias', "#{n} should name #{t}, is #{after[n].inspect}") unless after[n] == [:alias, t] }
      # nothing else, besides the types of the headers around and what these are made of
      all, others = @model.wanted(@model.files)
      (after.keys - before.keys).each do |n|
        next if all[n] || others[n] == (after[n][1] if after[n][0] == :alias) && others[n]
        d = after[n]
        case d[0]
        when :array, :pointer then next
        when :container then next
        when :num then next if %r{\A/(u?int(8|16|32|64)_t|float|double|bool|nil)\z} =~ n
        when :opaque then next if @opaques.include?(n)
        end
        next if d[0] == :alias && derived_alias?(n, aliases.keys + others.keys + before.keys + ['/void'])
        Sim.bad('not-in-the-headers', "#{n} (#{d.inspect}) is imported, but the headers define no such type")
      end
    end
    # names of arrays and pointers made with the aliases of their elements
    def derived_alias?(n, known)
      b = n[/\A(.*?)(\*|\[\d+\])+\z/, 1] || n[%r{\A/std/vector<(.*)>\z}, 1] and known.include?(b) || derived_alias?(b, known)
    end
    def check_type(reg, after, w)
      d = after[w.name] or Sim.bad('missing', "#{w.cxx} (#{w.kind}) is not imported as #{w.name}; there is #{after.keys.reject { |n| n.start_with?('/std') }.inspect}")
      case w.kind
      when :rec
        Sim.bad('definition', "#{w.name} should be #{[w.size, w.body].inspect}, is #{d.inspect}") unless d == [:rec, w.size, w.body]
      when :enum
        Sim.bad('definition', "#{w.name} should be #{[w.size, w.body].inspect}, is #{d.inspect}") unless d == [:enum, w.size, w.body]
      when :opaque
        Sim.bad('definition', "#{w.name} should be opaque, is #{d.inspect}") unless d == [:opaque]
      end
      t = reg.get(w.name)
      meta(w.name, t.metadata, 'source_file_line', ["#{w.file.location}:#{w.line}"])
      meta(w.name, t.metadata, 'cxxname', [w.cxx]) { |x| x.gsub(/> (?=>)/, '>') }
      meta(w.name, t.metadata, 'doc', w.doc ? [w.doc] : [])
      meta(w.name, t.metadata, 'unit', [w.meta[1]]) if w.meta && w.doc
      meta(w.name, t.metadata, 'base_classes', w.bases)
      return unless w.kind == :rec
      w.fields.each do |n, (f, line, doc)|
        md = t.field_metadata[n]
        meta("#{w.name}.#{n}", md, 'source_file_line', ["#{f.location}:#{line}"])
        meta("#{w.name}.#{n}", md, 'doc', doc ? [doc] : [])
      end
    end
    def meta(what, md, key, want)
      # what is known about a file that could not be read at some time depends on when
      return if @model.files.any?(&:broken) || @second
      got = md.get(key)
      got, want = [got, want].map { |a| a.map { |x| yield x } } if block_given?
      Sim.bad('metadata', "#{key} of #{what} should be #{want.inspect}, is #{got.inspect}") unless got.sort == want.sort
    end

    def preprocess
      files = @model.required.map(&:path)
      @tool.instance_variable_get(:@faults).clear
      @tool.fired.clear
      @tool.server = nil
      @tool.plan(:run, @tool.runs.size, pick(RUN_FAULTS - ['no output', 'truncated output'])) if chance(1, 2)
      Sim.log("preprocess #{files.join(' ')}")
      error = text = nil
      Sched.new.run do
        text = Typelib::CXX.preprocess(files, 'c', define: @macros, include: ['/src/pkg'])
      rescue Violation, Sched::Stuck
        raise
      rescue Exception => e
        error = e
      end
      if error
        Sim.bad('import-fails', "preprocessing: #{error.class}: #{error.message}") if @tool.fired.empty?
        Sim.bad('misreported', "a failure (#{@tool.fired.join(', ')}) is reported as #{error.class}: #{error.message[0, 200]}") if error.is_a?(NameError) || error.is_a?(TypeError)
      else
        Sim.bad('failure-lost', "preprocessing succeeds although #{@tool.fired.join(', ')}") unless @tool.fired.empty?
        files.each { |f| Sim.bad('preprocess', "#{f} is not included") unless text.include?("#include <#{f}>") }
        (@macros.map { |x| "-D#{x}" } + ['-I/src/pkg']).each { |o| Sim.bad('preprocess', "option #{o} is not passed") unless text.include?(o) }
      end
    end
  end
  def self.c35 = Import.new(false).run
  def self.c38 = Import.new(true).run
end
