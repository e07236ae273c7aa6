# C39: histories of operations on Ruby registries, against a model of registries made of plain Ruby objects.
module Sim
  class ApiWorld
    # a type of the model
    class TM
      attr_accessor :kind, :name, :size, :cat, :symbols, :fields, :elem, :count, :ckind, :meta, :fmeta
      def initialize(kind, name, size)
        @kind, @name, @size = kind, name, size
        @meta = {}
        @fmeta = {}
      end
      def deps
        case kind
        when :cmp then fields.map { |f| f[1] }.uniq
        when :arr, :vec, :ptr then [elem]
        else []
        end
      end
      def plain? = %i{num enum opq null cmp}.include?(kind)
      def closure(set = {}.compare_by_identity)
        return set if set[self]
        set[self] = true
        deps.each { |d| d.closure(set) }
        set
      end
    end
    # a registry of the model. derived: aliases which the library made out of others
    class RM
      attr_accessor :obj, :types, :aliases, :derived, :id, :classes, :once, :mod
      def initialize(obj, id)
        @obj, @id = obj, id
        @types, @aliases, @derived = {}, {}, {}
        @once = {}                             # every name that was an alias once
        @classes = {}.compare_by_identity      # TM -> Ruby class
      end
      def find(name) = types[name] || aliases[name] || derived[name]
      def names = types.keys + aliases.keys + derived.keys
      def state = [types.dup, aliases.dup, derived.dup, types.transform_values { |t| [t.size, t.fields && t.fields.map(&:dup), deep(t.meta), deep(t.fmeta)] }]
      def deep(h) = Marshal.load(Marshal.dump(h))
      def restore(s)
        @types, @aliases, @derived, rest = s[0].dup, s[1].dup, s[2].dup, s[3]
        @types.each { |n, t| t.size, f, m, fm = rest[n]; t.fields = f && f.map(&:dup); t.meta = deep(m); t.fmeta = deep(fm) }
      end
    end
    GONE = Struct.new(:tm, :cls, :reg, :value, :bytes)

    def draw(n) = Sim.draw(n)
    def chance(a, b) = Sim.chance(a, b)
    def pick(a) = Sim.pick(a)
    def log(m) = Sim.log(m)
    def bad(c, m) = Sim.bad(c, m)

    BASES = %w{A B C Foo fooBar foo_bar T1 x}
    SPACES = %w{/ / /ns/ /ns/sub/ /Camel/ /under_score/ /A/}
    ODD = ['P</int,3>', 'unsigned int', 'Q</ns/A,/B>', '_x']
    ALIASES = %w{/L /M /ns/L /ns/sub/L /Lalias /zz/M /Camel/L}
    TEXTS = ['a', 'two words', "l\u00e9gende", '<&">', "line\nbreak", '', 'x' * 40, "a'b"]
    CLASSES = { num: 'Typelib::NumericType', enum: 'Typelib::EnumType', opq: 'Typelib::OpaqueType', null: 'Typelib::NullType',
                cmp: 'Typelib::CompoundType', arr: 'Typelib::ArrayType', vec: 'Typelib::ContainerType', ptr: 'Typelib::PointerType' }

    def initialize
      @regs = []
      @gone = []
      @next = 0
      @faulty = chance(1, 2)
    end
    def arm
      return unless chance(2, 3)
      if @faulty && chance(1, 2)
        @armed = true
        Sim.arm_fault(draw(2), chance(1, 4) ? draw(200) : Sim.small(40), 1)
      else Sim.arm(draw(5), chance(1, 4) ? draw(400) : Sim.small(60))
      end
    end
    def new_registry
      o = Typelib::Registry.new
      g = RM.new(o, "r#{@next += 1}")
      @regs << g
      g
    end

    # ---- names and definitions ----------------------------------------------------------------------
    def fresh_name(g)
      8.times do
        n = pick(SPACES) + (chance(1, 10) ? pick(ODD) : pick(BASES))
        return n unless g.find(n)
      end
      nil
    end
    def pick_type(g) = g.types.empty? ? nil : g.types.values[draw(g.types.size)]
    # one of the names of a type
    def name_of(g, t)
      all = [t.name] + (g.aliases.merge(g.derived)).find_all { |_, x| x.equal?(t) }.map(&:first)
      chance(1, 3) ? pick(all) : t.name
    end
    # one of the names from which others can be derived: what is left without modifiers has to be defined
    def stem_of(g, t)
      n = name_of(g, t)
      g.find(n.sub(/(\*|\[\d+\])+\z/, '')) ? n : t.name
    end
    def def_compound(name, fs, size)
      t = TM.new(:cmp, name, 0)
      t.fields = fs
      t.size = fs.map { |_, f, o| o + f.size }.max || 0
      t.size = size if size > 0
      t
    end
    def op_create(g)
      name = fresh_name(g) or return
      deps = g.types.values
      kind = deps.empty? ? draw(3) : draw(8)
      case kind
      when 0
        size, cat = pick([[1, :sint], [1, :uint], [2, :sint], [4, :sint], [4, :uint], [8, :uint], [8, :sint], [4, :float], [8, :float], [2, :uint], [16, :float]])
        t = TM.new(:num, name, size)
        t.cat = cat
        run(g, "define the numeric #{name} #{cat} #{size}", -> { add(g, t) }) { g.obj.create_numeric(name, size, cat) }
      when 1
        t = TM.new(:enum, name, 4)
        defs = []
        last = -1
        (1 + draw(4)).times do |i|
          v = chance(1, 2) ? draw(9) - 2 : nil
          last = v || last + 1
          defs << ["S#{i}", v, last]
        end
        t.symbols = defs.to_h { |n, _, v| [n, v] }
        size = pick([0, 0, 0, 1, 2, 8])
        t.size = size if size > 0
        how = draw(3)
        run(g, "define the enum #{name} #{defs.map { |n, v| v ? "#{n}=#{v}" : n }.join(',')}", -> { add(g, t) }) do
          g.obj.create_enum(name, size) do |e|
            defs.each do |n, v|
              if how == 0 then v ? e.add(n, v) : e.add(n)
              elsif v then how == 1 ? e.send("#{n}=", v) : e.add(n.to_sym, v.to_s)
              else e.send(n)
              end
            end
          end
        end
      when 2
        if chance(1, 4)
          t = TM.new(:null, name, 0)
          run(g, "define the null type #{name}", -> { add(g, t) }) { g.obj.create_null(name) }
        else
          t = TM.new(:opq, name, 1 + draw(20))
          run(g, "define the opaque #{name} #{t.size}", -> { add(g, t) }) { g.obj.create_opaque(name, t.size) }
        end
      when 3..5
        off = 0
        union = chance(1, 12)
        fs = (0...draw(5)).map do |i|
          f = pick(deps)
          explicit = chance(1, 2)
          off += draw(5) if explicit
          off = 0 if union
          r = ["f#{i}", f, off, explicit || union, name_of(g, f), draw(4)]
          off += f.size
          r
        end
        size = chance(1, 4) ? (fs.map { |_, f, o| o + f.size }.max || 0) + draw(6) : 0
        t = def_compound(name, fs.map { |n, f, o| [n, f, o] }, size)
        run(g, "define the compound #{name} {#{fs.map { |n, f, o| "#{n}@#{o}:#{f.name}" }.join(' ')}} #{size}", -> { add(g, t) }) do
          g.obj.create_compound(name, size) do |c|
            fs.each do |n, f, o, explicit, fname, how|
              ft = how == 0 ? (g.classes[f] || fname) : how == 1 ? fname : how == 2 ? fname.to_sym : g.obj.get(fname)
              if explicit then c.add(how == 3 ? n.to_sym : n, ft, o)
              elsif how == 2 then c.send("#{n}=", ft)
              else c.add(n, ft)
              end
            end
          end
        end
        Sim.count('compounds defined')
      else op_derive(g)
      end
    end
    def op_derive(g)
      e = pick_type(g) or return
      case draw(4)
      when 0
        n = draw(4)
        n = 1 + draw(5) if n == 0
        t = array(e, n)
        ename = stem_of(g, e)
        how = draw(4)
        run(g, "array #{ename}[#{n}]", -> { t = add(g, t) }) do
          case how
          when 0 then g.obj.create_array(g.classes[e] || ename, n)
          when 1 then g.obj.create_array(ename, n)
          else g.obj.build("#{ename}[#{n}]")
          end
        end
      when 1
        n, m = 1 + draw(3), 1 + draw(3)
        inner = array(e, n)
        ename = stem_of(g, e)
        run(g, "array #{ename}[#{n}][#{m}]", -> { i = add(g, inner); add(g, array(i, m)) }) { g.obj.build("#{ename}[#{n}][#{m}]") }
      when 2
        return if e.name.end_with?(']', '>')
        t = TM.new(:ptr, e.name + '*', 8)
        t.elem = e
        if g.classes[e] && chance(1, 2) then run(g, "pointer to #{e.name}", -> { add(g, t) }) { g.classes[e].to_ptr }
        else
          ename = stem_of(g, e)
          return if ename.end_with?(']', '>')
          run(g, "pointer #{ename}*", -> { add(g, t) }) { g.obj.build("#{ename}*") }
        end
      else
        return if e.kind == :null || e.size == 0
        t = TM.new(:vec, "/std/vector<#{e.name}>", 24)
        t.elem = e
        t.ckind = '/std/vector'
        ename = stem_of(g, e)
        how = draw(2)
        run(g, "container /std/vector<#{ename}>", -> { add(g, t) }) { g.obj.create_container('/std/vector', how == 0 ? ename : g.obj.get(ename)) }
      end
    end
    def array(e, n)
      t = TM.new(:arr, "#{e.name}[#{n}]", e.size * n)
      t.elem, t.count = e, n
      t
    end
    # the model's part of a definition: gives the type that has that name from now on
    def add(g, t)
      return g.find(t.name) if !t.plain? && g.find(t.name)
      g.types[t.name] = t
    end

    # ---- running an operation -----------------------------------------------------------------------
    # effect: what it does to the model. loose: what it does may be done in part if it fails.
    def run(g, what, effect, loose: nil)
      log("#{g.id}: #{what}")
      g.mod = nil if what =~ /\A(remove|clear the)/
      before = @regs.map { |r| [r, r.state] }
      result = effect.call
      after = g.state
      arm
      begin
        got = yield
      rescue Violation
        raise
      rescue Exception => e
        fired = Sim.disarm_fault
        Sim.disarm
        unless fired
          bad('spurious-refusal', "#{g.id}: #{what}: #{e.class} #{e.message} #{(e.backtrace || [])[0, 4].join(' < ')}")
        end
        Sim.nontrivial
        Sim.count("failures reported as #{e.class}")
        log("  failed: #{e.class}")
        e = nil
        before.each { |r, s| r.restore(s) }
        settle(g, after, loose)
        check(g)
        return
      ensure
        Sim.disarm_fault
        Sim.nontrivial if Sim.disarm
      end
      if result.kind_of?(TM)
        unless got.respond_to?(:name) && got.name == result.name && got.equal?(g.obj.get(result.name))
          bad('wrong-result', "#{g.id}: #{what} gives #{got.inspect} instead of the class of #{result.name}")
        end
        got = nil
      end
      check(g)
      got
    end
    # after a failed operation: all of it or nothing, save what it derives on its way
    def settle(g, after, loose)
      names = g.obj.each(with_aliases: true).map { |n, _| n }
      now = names.reject { |n| g.find(n) }
      missing = g.names - names
      news = (after[0].keys + after[1].keys) - g.types.keys - g.aliases.keys
      gone = (g.types.keys + g.aliases.keys) - after[0].keys - after[1].keys
      derivable = ->(n) { after[0][n] ? !after[0][n].plain? : !after[1][n] }
      if loose.kind_of?(Array)
        # metadata of one key: what it was, what it would be, or cleared in order to be set
        t, f, k = loose
        got = (f ? g.classes[t].field_metadata[f] : g.classes[t].metadata).then { |md| md.include?(k) ? md.get(k).sort : nil }
        full = (f ? after[3][t.name][3][f] : after[3][t.name][2]) || {}
        m = f ? (t.fmeta[f] ||= {}) : t.meta
        if got.nil? then m.delete(k)
        elsif (got - (full[k] || []) - (m[k] || [])).empty? then m[k] = got
        end
        return
      end
      if loose == :additions
        bad('registry-changed', "#{g.id}: a failed operation removed #{missing.first}") unless missing.empty?
        now.each do |n|
          if after[0][n] then g.types[n] = after[0][n]
          elsif after[1][n] then g.aliases[n] = after[1][n]
          end
        end
        # and metadata
        g.types.each { |n, t| @loose_meta = g if after[3][n] }
        return
      end
      if !gone.empty? ? (missing - g.derived.keys).sort == gone.sort : (news.any? { |n| !derivable.call(n) } && (news.reject(&derivable) - now).empty?)
        g.restore(after)
        return
      end
      now.each { |n| g.types[n] = after[0][n] if after[0][n] && derivable.call(n) }
    end

    # ---- observation --------------------------------------------------------------------------------
    def fail_in(g, m) = bad('wrong-content', "#{g.id}: #{m}")
    # an alias made by the library: another name inside the name of a derived type
    def derived_alias?(g, name, t)
      return false if t.plain?
      case t.kind
      when :arr
        return false unless name =~ /\A(.*)\[(\d+)\]\z/m && $2.to_i == t.count
        alias_of?(g, $1, t.elem)
      when :ptr then name.end_with?('*') && alias_of?(g, name[0..-2], t.elem)
      when :vec then name.start_with?("#{t.ckind}<") && name.end_with?('>') && alias_of?(g, name[t.ckind.size + 1..-2], t.elem)
      end
    end
    def alias_of?(g, name, t)
      return true if t.name == name || g.find(name).equal?(t)
      return true if g.once[name]
      derived_alias?(g, name, t)
    end
    def check(g)
      o = g.obj
      seen = {}
      order = []
      o.each(with_aliases: true) do |name, cls|
        bad('duplicate-name', "#{g.id}: #{name} is enumerated twice") if seen[name]
        seen[name] = cls
        order << name
      end
      fail_in(g, "size is #{o.size}, #{seen.size} names are enumerated") if o.size != seen.size
      # the library's own aliases
      seen.each do |name, cls|
        next if g.find(name) || cls.name == name
        t = g.types[cls.name]
        fail_in(g, "#{name} is an alias of #{cls.name} which nothing asked for") unless t && derived_alias?(g, name, t)
        g.derived[name] = t
        g.once[name] = true
      end
      g.derived.delete_if { |n, _| !seen[n] }
      (g.types.keys + g.aliases.keys).each { |n| fail_in(g, "#{n} is missing") unless seen[n] }
      seen.each_key { |n| fail_in(g, "#{n} is there, which nothing defined") unless g.find(n) }
      seen.each do |n, cls|
        t = g.find(n)
        fail_in(g, "#{n} names #{cls.name} instead of #{t.name}") if cls.name != t.name
        known = g.classes[t]
        fail_in(g, "#{n} has another class than before") if known && !known.equal?(cls)
        g.classes[t] ||= cls
        fail_in(g, "get(#{n}) gives another class") unless o.get(n).equal?(cls)
        fail_in(g, "include?(#{n}) is false") unless o.include?(n)
      end
      types = []
      o.each { |c| types << c.name }
      fail_in(g, "#{types.inspect} enumerated without aliases") unless types == order.find_all { |n| g.types[n] }
      g.types.each_value { |t| check_type(g, t, g.classes[t]) }
      Sim.state(Marshal.dump([g.types.values.map { |t| [t.name, t.size, t.kind, t.meta] }, g.aliases.map { |a, t| [a, t.name] }]))
    end
    def check_type(g, t, c)
      w = "#{t.name}: "
      fail_in(g, "#{w}superclass #{c.superclass}") unless c.superclass.name == CLASSES[t.kind]
      fail_in(g, "#{w}its class belongs to another registry") unless c.registry.equal?(g.obj)
      fail_in(g, "#{w}size #{c.size} instead of #{t.size}") unless c.size == t.size
      fail_in(g, "#{w}null? #{c.null?.inspect}, opaque? #{c.opaque?.inspect}") unless c.null? == (t.kind == :null) && c.opaque? == (t.kind == :opq)
      case t.kind
      when :num
        fail_in(g, "#{w}integer? #{c.integer?}") unless c.integer? == (t.cat != :float)
        fail_in(g, "#{w}unsigned? #{c.unsigned?}") unless t.cat == :float || c.unsigned? == (t.cat == :uint)
      when :enum
        fail_in(g, "#{w}symbols #{c.keys.inspect} instead of #{t.symbols.inspect}") unless c.keys == t.symbols
      when :cmp
        got = c.each_field.map { |n, f| [n, f] }
        ok = got.size == t.fields.size && got.zip(t.fields).all? { |(n, f), (m, ft, o)| n == m && f.equal?(g.classes[ft]) && c.offset_of(m) == o }
        fail_in(g, "#{w}fields #{got.map { |n, f| "#{n}@#{c.offset_of(n)}:#{f.name}" }.inspect} instead of #{t.fields.map { |n, f, o| "#{n}@#{o}:#{f.name}" }.inspect}") unless ok
      when :arr
        fail_in(g, "#{w}length #{c.length}") unless c.length == t.count
        fail_in(g, "#{w}elements of #{c.deference.name}") unless c.deference.equal?(g.classes[t.elem])
      when :vec
        fail_in(g, "#{w}kind #{c.container_kind}") unless c.container_kind == t.ckind
        fail_in(g, "#{w}elements of #{c.deference.name}") unless c.deference.equal?(g.classes[t.elem])
      when :ptr
        fail_in(g, "#{w}points to #{c.deference.name}") unless c.deference.equal?(g.classes[t.elem])
      end
      check_meta(g, w, c.metadata, t.meta)
      t.fmeta.each { |f, m| check_meta(g, "#{w}field #{f}: ", c.field_metadata[f], m) }
    end
    def check_meta(g, w, md, m)
      return if @loose_meta.equal?(g)
      got = md.keys.to_h { |k| [k, md.get(k).sort] }
      want = m.transform_values(&:sort)
      fail_in(g, "#{w}metadata #{got.inspect} instead of #{want.inspect}") unless got == want
    end

    # ---- queries ------------------------------------------------------------------------------------
    def op_query(g)
      t = pick_type(g) or return
      c = g.classes[t] or return
      w = "#{g.id}: "
      log("#{g.id}: questions about #{t.name}")
      arm_gc
      case k = draw(14)
      when 0
        want = g.types.values.find_all { |x| x.closure[t] }.map(&:name).sort
        got = g.obj.reverse_depends(c).map(&:name).sort
        bad('wrong-answer', "#{w}reverse_depends(#{t.name}) is #{got.inspect} instead of #{want.inspect}") unless got == want
      when 1
        want = g.names.find_all { |n| !g.types[n] && g.find(n).equal?(t) }.sort
        got = g.obj.aliases_of(c).sort
        bad('wrong-answer', "#{w}aliases_of(#{t.name}) is #{got.inspect} instead of #{want.inspect}") unless got == want
      when 2
        got = [c.direct_dependencies, c.dependencies].map { |s| s.map(&:name).sort }
        want = t.deps.map(&:name).sort
        bad('wrong-answer', "#{w}direct_dependencies of #{t.name} are #{got.inspect} instead of #{want.inspect}") unless got == [want, want]
      when 3
        acc = chance(1, 2) ? Set.new([c]) : nil
        got = (acc ? c.recursive_dependencies(acc) - [c] : c.recursive_dependencies).map(&:name).sort
        want = (t.closure.keys - [t]).map(&:name).sort
        bad('wrong-answer', "#{w}recursive_dependencies of #{t.name} are #{got.inspect} instead of #{want.inspect}") unless got == want
      when 4
        u = pick_type(g)
        got = c.contains?(g.classes[u])
        want = !!t.closure[u]
        bad('wrong-answer', "#{w}#{t.name} contains?(#{u.name}) is #{got}") unless got == want
        k = pick(CLASSES.keys)
        got = c.contains?(Typelib.const_get(CLASSES[k].split('::').last))
        want = t.closure.keys.any? { |x| x.kind == k }
        bad('wrong-answer', "#{w}#{t.name} contains?(#{CLASSES[k]}) is #{got}") unless got == want
      when 5
        opts = { recursive: chance(1, 2), layout_info: chance(1, 2) }
        got = c.to_h(opts)
        want = hash_of(t, opts)
        bad('wrong-answer', "#{w}#{t.name}.to_h(#{opts}) is #{got.inspect} instead of #{want.inspect}") unless got == want
      when 6
        prefix = pick([nil, '', '/', '/ns/', '/ns', '/A', '/nope', t.name, t.name[0, 1 + draw(t.name.size)]])
        wa = chance(1, 2)
        got = wa ? g.obj.each(prefix, with_aliases: true).map { |n, x| [n, x.name] } : g.obj.each(prefix).map { |x| [x.name, x.name] }
        want = (wa ? g.names : g.types.keys).find_all { |n| n.start_with?(prefix.to_s) }.map { |n| [n, g.find(n).name] }
        bad('wrong-answer', "#{w}each(#{prefix.inspect}, with_aliases: #{wa}) gives #{got.inspect} instead of #{want.inspect}") unless got.sort == want.sort
      when 7
        n = pick(['/nope', '/ns', 'A', '', "#{t.name}[77]", "#{t.name}x", t.name[1..-1]])
        # visible in the root namespace
        f = g.find(n) || (g.find("/#{n}") unless n.start_with?('/'))
        unless f
          bad('wrong-answer', "#{w}include?(#{n.inspect}) is true") if g.obj.include?(n)
          begin
            x = g.obj.get(n)
          rescue Typelib::NotFound
          end
          bad('wrong-answer', "#{w}get(#{n.inspect}) gives #{x.name}") if x
        end
      when 8
        prec, last = split(t.name)
        sep = pick(['/', '::', '.'])
        want = [last.gsub('/', sep), prec.gsub('/', sep), prec[1..-1].gsub('/', sep), prec.gsub('/', sep) + last.gsub('/', sep)]
        got = [c.basename(sep), c.namespace(sep), c.namespace(sep, true), c.full_name(sep)]
        bad('wrong-answer', "#{w}#{t.name}: basename, namespace, full_name are #{got.inspect} instead of #{want.inspect}") unless got == want
        want = prec.split('/').drop(1) + [last]
        bad('wrong-answer', "#{w}#{t.name}.split_typename is #{c.split_typename.inspect} instead of #{want.inspect}") unless c.split_typename == want || t.name.index('>')
      when 9
        if t.kind == :enum
          t.symbols.each { |s, v| bad('wrong-answer', "#{w}value_of(#{s}) of #{t.name} is #{c.value_of(s)}") unless c.value_of(s) == v }
          t.symbols.each { |s, v| bad('wrong-answer', "#{w}name_of(#{v}) of #{t.name} is #{c.name_of(v)}") unless t.symbols[c.name_of(v).to_s] == v }
        elsif t.kind == :cmp
          t.fields.each do |n, f, _|
            ok = c[n].equal?(g.classes[f]) && c[n.to_sym].equal?(g.classes[f]) && c.has_field?(n) && !c.has_field?(n + 'x')
            bad('wrong-answer', "#{w}field #{n} of #{t.name}") unless ok
          end
          bad('wrong-answer', "#{w}empty? of #{t.name}") unless c.empty? == t.fields.empty?
        end
      when 10
        # types of other registries
        h = pick(@regs)
        u = h.types[t.name] || pick_type(h)
        return unless u && h.classes[u]
        same = same?(t, u)
        got = c == h.classes[u]
        bad('wrong-answer', "#{w}#{t.name} == #{u.name} of #{h.id} is #{got}") if same != got && !(got == false && twice?(t, u))
        got = c.eql?(h.classes[u])
        bad('wrong-answer', "#{w}#{t.name} eql? #{u.name} of #{h.id} is #{got}") if (same && t.name == u.name) != got && !(got == false && twice?(t, u))
        bad('wrong-answer', "#{w}#{t.name} cannot be cast to #{u.name} of #{h.id}") if same && !c.casts_to?(h.classes[u]) && !twice?(t, u)
      when 11
        bad('wrong-answer', "#{w}#{t.name} is_a? its own name") unless c.is_a?(t.name) && c.is_a?(/#{Regexp.quote(t.name)}/) && !c.is_a?('/nope')
        x = t
        x = x.fields[0][1] while x.kind == :cmp && !x.fields.empty?
        bad('wrong-answer', "#{w}#{t.name} is no #{x.name}") unless c.is_a?(x.name)
      when 12
        k = pick(CLASSES.keys)
        a = Typelib::Accessor.find_in_type(c) { |x| x <= Typelib.const_get(CLASSES[k].split('::').last) }
        got = a.paths.map { |p| p.elements.map { |op, m| op == :call ? m[1] : '*' } }
        want = paths(t, k)
        bad('wrong-answer', "#{w}find_in_type(#{t.name}, #{k}) gives #{got.inspect} instead of #{want.inspect}") unless got.sort == want.sort && got.map(&:size) == got.map(&:size).sort
      else
        bad('wrong-answer', "#{w}source id of #{t.name}") unless g.obj.source_id_of(c).nil?
        bad('wrong-answer', "#{w}text of #{t.name} is #{c.to_s}") unless c.to_s == "#<#{CLASSES[t.kind]}: #{t.name}>" && c.inspect == c.to_s
        PP.pp(c, +'')
      end
      Sim.nontrivial if Sim.disarm
    end
    def arm_gc = chance(1, 2) && Sim.arm(draw(5), Sim.small(80))
    def paths(t, k)
      r = []
      r << [] if t.kind == k
      case t.kind
      when :cmp then t.fields.each { |n, f, _| paths(f, k).each { |p| r << [n] + p } }
      when :arr, :vec then paths(t.elem, k).each { |p| r << ['*'] + p }
      end
      r
    end
    def hash_of(t, opts, minimal = false)
      r = { name: t.name, class: CLASSES[t.kind] }
      r[:size] = t.size if opts[:layout_info]
      return r if minimal
      sub = ->(x) { hash_of(x, opts, !opts[:recursive]) }
      case t.kind
      when :num
        r[:size] = t.size
        r[:integer] = t.cat != :float
        r[:unsigned] = t.cat == :uint if t.cat != :float
      when :enum then r[:values] = t.symbols.sort.map { |n, v| { name: n, value: v } }
      when :cmp
        r[:fields] = t.fields.map do |n, f, o|
          h = { name: n, type: sub.call(f) }
          h[:offset] = o if opts[:layout_info]
          h
        end
      when :arr
        r[:length] = t.count
        r[:element] = sub.call(t.elem)
      when :vec then r[:element] = sub.call(t.elem)
      end
      r
    end
    # namespace and basename, not looking inside template arguments
    def split(name)
      depth = 0
      pos = 0
      name.each_char.with_index do |ch, i|
        depth += 1 if ch == '<'
        depth -= 1 if ch == '>'
        pos = i if ch == '/' && depth == 0
      end
      [name[0..pos], name[pos + 1..-1]]
    end
    def same?(a, b, seen = {})
      return true if a.equal?(b) || seen[[a.object_id, b.object_id]]
      seen[[a.object_id, b.object_id]] = true
      return false if a.kind != b.kind || a.size != b.size
      case a.kind
      when :num then a.cat == b.cat
      when :enum then a.symbols == b.symbols
      when :opq, :null then a.name == b.name
      when :cmp then a.fields.size == b.fields.size && a.fields.zip(b.fields).all? { |(n, f, o), (m, e, q)| n == m && o == q && same?(f, e, seen) }
      when :arr then a.count == b.count && same?(a.elem, b.elem, seen)
      when :vec then a.ckind == b.ckind && same?(a.elem, b.elem, seen)
      when :ptr then same?(a.elem, b.elem, seen)
      end
    end
    # The library's comparison maps each type to one other: a type that corresponds to two compares different.
    def twice?(a, b, map = {}.compare_by_identity, seen = {})
      return false if seen[[a.object_id, b.object_id]]
      seen[[a.object_id, b.object_id]] = true
      return true if map[a] && !map[a].equal?(b)
      map[a] = b
      return false if a.kind != b.kind
      case a.kind
      when :cmp then a.fields.zip(b.fields).any? { |(_, f, _), (_, e, _)| e && (twice?(f, e, map, seen) || twice?(e, f, map, seen)) }
      when :arr, :vec, :ptr then twice?(a.elem, b.elem, map, seen) || twice?(b.elem, a.elem, map, seen)
      end
    end

    # ---- aliases, removals --------------------------------------------------------------------------
    def op_alias(g)
      case draw(6)
      when 0..2
        t = pick_type(g) or return
        a = pick(ALIASES)
        return if g.find(a)
        n = name_of(g, t)
        run(g, "alias #{a} of #{n}", -> { g.aliases[a] = t; g.once[a] = true; nil }) { g.obj.alias(a, n) }
      when 3..4
        return if g.aliases.empty?
        a = g.aliases.keys[draw(g.aliases.size)]
        run(g, "remove the alias #{a}", -> { g.aliases.delete(a); nil }) { g.obj.remove_alias(a) }
      else
        run(g, 'clear the aliases', -> { g.aliases.clear; g.derived.clear; nil }) { g.obj.clear_aliases }
      end
    end
    def op_remove(g)
      t = pick_type(g) or return
      c = g.classes[t] or return
      dead = g.types.values.find_all { |x| x.closure[t] }
      value, bytes = a_value(t, c)
      kept = dead.map { |x| [x, g.classes[x]] }
      effect = lambda do
        dead.each { |x| g.types.delete(x.name) }
        g.aliases.delete_if { |_, x| dead.any? { |d| d.equal?(x) } }
        g.derived.delete_if { |_, x| dead.any? { |d| d.equal?(x) } }
        nil
      end
      got = run(g, "remove #{t.name} and the #{dead.size - 1} types that depend on it", effect) { g.obj.remove(c) }
      if g.types[t.name].equal?(t) then return
      elsif got
        names = got.map(&:name).sort
        bad('wrong-result', "#{g.id}: removing #{t.name} gives #{names.inspect} instead of #{dead.map(&:name).sort.inspect}") unless names == dead.map(&:name).sort
        got.each { |x| bad('wrong-result', "#{g.id}: the removed #{x.name} has another class") unless kept.any? { |y, k| k.equal?(x) } }
      end
      kept.each { |x, k| @gone << GONE.new(x, k, g, x.equal?(t) ? value : nil, x.equal?(t) ? bytes : nil) if chance(1, 2) }
      Sim.count('types removed', ) rescue nil
    end
    # a value of the type and its content
    def a_value(t, c)
      return unless %i{num enum cmp arr}.include?(t.kind) && t.size > 0 && t.closure.keys.none? { |x| %i{ptr opq null vec}.include?(x.kind) }
      return unless t.closure.keys.all? { |x| x.kind != :num || [1, 2, 4, 8].include?(x.size) }
      v = c.zero
      [v, v.to_byte_array]
    end
    # classes and values of types which are no more in their registry
    def op_gone
      d = pick(@gone) or return
      log("the removed type #{d.tm.name} of #{d.reg.id}")
      arm_gc
      c, t = d.cls, d.tm
      bad('removed-type', "#{t.name} is called #{c.name}, of size #{c.size} instead of #{t.size}") unless c.name == t.name && c.size == t.size
      if t.kind == :cmp
        ok = c.each_field.to_a.size == t.fields.size && t.fields.all? { |n, f, o| c[n].name == f.name && c.offset_of(n) == o }
        bad('removed-type', "the fields of #{t.name} changed") unless ok
      elsif %i{arr vec ptr}.include?(t.kind)
        bad('removed-type', "#{t.name} refers to #{c.deference.name}") unless c.deference.name == t.elem.name
      end
      bad('removed-type', "a value of #{t.name} changed") if d.value && d.value.to_byte_array != d.bytes
      g = d.reg
      if g.obj
        begin
          g.obj.reverse_depends(c)
          bad('removed-type', "the removed #{t.name} has reverse dependencies")
        rescue ArgumentError
        end
        begin
          g.obj.remove(c)
          bad('removed-type', "#{t.name} was removed twice")
        rescue ArgumentError
        end
        bad('removed-type', "the removed #{t.name} has aliases") unless g.obj.aliases_of(c).empty?
        bad('removed-type', "the removed #{t.name} is still found") if g.classes.any? { |x, k| k.equal?(c) && g.types[x.name].equal?(x) }
      end
      Sim.nontrivial if Sim.disarm
      @gone.delete_at(draw(@gone.size)) if chance(1, 3)
    end

    # ---- metadata -----------------------------------------------------------------------------------
    def op_meta(g)
      t = pick_type(g) or return
      c = g.classes[t] or return
      m, md, w = t.meta, c.metadata, t.name
      f = nil
      if t.kind == :cmp && !t.fields.empty? && chance(1, 2)
        f = pick(t.fields)[0]
        m = (t.fmeta[f] ||= {})
        md = c.field_metadata[f]
        w = "#{t.name}.#{f}"
      end
      k = pick(%w{doc k1 some\ key})
      vs = (0...draw(3)).map { pick(TEXTS) }
      case draw(6)
      when 0
        run(g, "set metadata #{k} of #{w} to #{vs.inspect}", -> { m.delete(k); m[k] = vs.uniq; nil }, loose: [t, f, k]) { md.set(k, *vs) }
      when 1
        v = pick(TEXTS)
        run(g, "metadata #{k} of #{w} = #{v.inspect}", -> { m[k] = [v]; nil }, loose: [t, f, k]) { md[k] = v }
      when 2, 3
        run(g, "add #{vs.inspect} to metadata #{k} of #{w}", -> { m[k] = ((m[k] || []) + vs).uniq; nil }, loose: [t, f, k]) { md.add(k, *vs) }
      when 4
        run(g, "clear metadata #{k} of #{w}", -> { m.delete(k); nil }) { chance(1, 2) ? md.clear(k) : md.delete(k) }
      else
        run(g, "clear metadata of #{w}", -> { m.clear; nil }) { md.clear }
      end
      m = f ? (t.fmeta[f] ||= {}) : t.meta
      want = m[k] || []
      got = md[k]
      bad('metadata', "#{w}: #{k} is #{got.inspect} instead of #{want.inspect}") unless @loose_meta.equal?(g) || got.sort == want.sort
      bad('metadata', "#{w}: include?(#{k}) is #{md.include?(k)}") unless @loose_meta.equal?(g) || md.include?(k) == m.has_key?(k)
      bad('metadata', "#{w}: #{got.inspect} is not UTF-8") unless got.all? { |s| s.encoding == Encoding::UTF_8 && s.valid_encoding? }
      bad('metadata', "#{w}: each gives #{md.each.to_a.inspect}") unless @loose_meta.equal?(g) || md.each.to_a.to_h.transform_values(&:sort) == m.transform_values(&:sort)
    end

    # ---- whole registries ---------------------------------------------------------------------------
    def conflict(dst, src)
      src.types.each { |n, t| u = dst.find(n); return n if u && !same?(u, t) }
      src.aliases.merge(src.derived).each { |n, t| u = dst.find(n); return n if u && !same?(u, t) }
      nil
    end
    # what a merge of some types of src does to the model of dst
    def merge_model(dst, src, types = src.types.values, metadata: true)
      map = {}.compare_by_identity
      add = lambda do |t|
        next map[t] if map[t]
        old = dst.find(t.name)
        next map[t] = old if old
        n = TM.new(t.kind, t.name, t.size)
        map[t] = n
        n.cat, n.symbols, n.count, n.ckind = t.cat, t.symbols, t.count, t.ckind
        n.elem = add.call(t.elem) if t.elem
        n.fields = t.fields.map { |a, f, o| [a, add.call(f), o] } if t.fields
        n.name = "#{n.elem.name}[#{n.count}]" if n.kind == :arr
        dst.types[n.name] = n
      end
      types.each { |t| add.call(t) }
      if metadata
        src.types.each_value do |t|
          n = dst.find(t.name) or next
          t.meta.each { |k, v| n.meta[k] = ((n.meta[k] || []) + v).uniq }
          t.fmeta.each { |f, m| m.each { |k, v| h = (n.fmeta[f] ||= {}); h[k] = ((h[k] || []) + v).uniq } }
        end
      end
      map
    end
    def merge_aliases(dst, src, map, only_present: false)
      [[src.aliases, dst.aliases], [src.derived, dst.derived]].each do |from, to|
        from.each do |a, t|
          u = dst.find(t.name)
          next if dst.find(a) || !u
          to[a] = u
          dst.once[a] = true
        end
      end
    end
    # two types of one side for one of the other: the library may refuse to compare them
    def ambiguous?(a, b) = (a.types.keys & b.types.keys).any? { |n| twice?(a.types[n], b.types[n]) } || shared_twice?(a, b)
    def shared_twice?(a, b)
      map = {}.compare_by_identity
      back = {}.compare_by_identity
      (a.names & b.names).any? { |n| twice?(a.find(n), b.find(n), map, {}) || twice?(b.find(n), a.find(n), back, {}) }
    end
    def op_merge(g)
      h = pick(@regs)
      return if h.equal?(g)
      con = conflict(g, h)
      if con || ambiguous?(g, h)
        doubtful(g, h, "merge #{h.id}", con) { g.obj.merge(h.obj) }
        check(h)
        return
      end
      run(g, "merge #{h.id}", -> { map = merge_model(g, h); merge_aliases(g, h, map); nil }, loose: :additions) { g.obj.merge(h.obj) }
      bad('wrong-result', "#{g.id}: merging changed #{h.id}") if false
      check(h)
      @loose_meta = nil if @loose_meta.equal?(g) && resync_meta(g)
    end
    # an addition of h that has to be refused (con is the name that is in the way), or may be
    def doubtful(g, h, what, con)
      log("#{g.id}: #{what}, #{con ? "where #{con} differs" : 'which may be refused'}")
      before = g.state
      ok = begin
        yield
        true
      rescue Violation
        raise
      rescue StandardError
        false
      end
      bad('conflict-accepted', "#{g.id}: #{what} was accepted although #{con} differs") if con && ok
      Sim.nontrivial
      Sim.count('merges refused') unless ok
      merge_model(g, h, metadata: ok)
      merge_aliases(g, h, nil)
      after = g.state
      return check(g) if ok
      g.restore(before)
      settle(g, after, :additions)
      # only types that were added may have got metadata
      @loose_meta = g
      check(g)
      @loose_meta = nil
      before[0].each_value { |t| check_type(g, t, g.classes[t]) }
      resync_meta(g)
    end
    # the types of a document: what g exports
    def exported(g)
      n = RM.new(nil, 'the document')
      merge_model(n, g, g.types.values.find_all { |t| !%i{arr ptr}.include?(t.kind) } + g.aliases.values)
      merge_aliases(n, g, nil)
      n.derived.clear
      strip_meta(n)
      n
    end
    FILES = [['/sim/types.tlb', 'auto'], ['/sim/a dir/../types.tlb', nil], ['/sim/types.tlb', 'tlb'], ['/sim/types.xml', 'tlb'], ['/sim/types', 'tlb'], ['types.tlb', 'auto'],
             ['/sim/types.xml', 'auto'], ['/sim/types', 'auto'], ['/sim/types.tlb', 'nope'], ['/sim/gone.tlb', 'auto']]
    def op_import(g)
      h = pick(@regs)
      xml = h.obj.to_xml
      file, kind = FILES[chance(1, 4) ? draw(FILES.size) : draw(6)]
      path = File.expand_path(file, '/sim')
      asked = file.start_with?('/') ? file : path
      doc = exported(h)
      damage = chance(1, 6) ? draw(4) : nil
      text = xml
      open_err, err_at = 0, -1
      case damage
      when 0 then text = xml.byteslice(0, draw(xml.b.rindex('</typelib>') + 1))
      when 1 then open_err = pick([2, 13, 24])
      when 2 then err_at = draw(xml.b.rindex('</typelib>') + 1)
      when 3 then text = xml.sub('</typelib>', '<numeric name="/bad" category="sint" size="x"/></typelib>')
      end
      Sim.file(path, text, chance(1, 3) ? 1 + draw(100) : 0, open_err, err_at) unless file =~ /gone/
      merge = chance(1, 2)
      opts = chance(1, 2) ? {} : { rawflags: %w{-a -b}, opaques: 'x', nested: [{ a: 1 }, { b: [true, 2] }], one: { k: 'v' } }
      fresh = chance(1, 4)
      ask = lambda do |o|
        # relative names start at the current directory, which is not in the simulation
        case fresh
        when true then kind == 'auto' && chance(1, 2) ? Typelib::Registry.import(asked) : Typelib::Registry.import(asked, kind)
        else merge && opts.empty? && kind == 'auto' && chance(1, 2) ? o.import(asked) : o.import(asked, kind, merge: merge, **opts)
        end
      end
      impossible = damage || file =~ /gone/ || kind == 'nope' || (%w{.xml}.include?(File.extname(file)) || File.extname(file).empty?) && kind != 'tlb'
      what = "import #{file} (#{kind.inspect}, #{merge ? 'merged' : 'directly'}#{', ' + %w{truncated unreadable broken wrong}[damage] if damage}) of #{h.id}"
      if fresh
        if impossible
          log("#{what} into a new registry")
          begin
            ask.call(nil)
          rescue RuntimeError
          else bad('accepted', "#{what} succeeded")
          end
        else
          o = make(h, "#{what} into a new registry") { ask.call(nil) } or return
          n = adopt(o, "what #{file} holds")
          merge_model(n, doc)
          merge_aliases(n, doc, nil)
          keep(n)
        end
      elsif impossible
        return if damage == 3 && !merge && doc.names.any? { |n| g.find(n) }
        before = g.state
        log("#{g.id}: #{what}")
        begin
          ask.call(g.obj)
        rescue RuntimeError
        else bad('accepted', "#{g.id}: #{what} succeeded")
        end
        Sim.nontrivial
        Sim.count('imports refused')
        if merge || damage != 3 then check(g)
        else
          # the parts before the damaged one may have been added
          merge_model(g, doc, metadata: false)
          merge_aliases(g, doc, nil)
          after = g.state
          g.restore(before)
          settle(g, after, :additions)
          @loose_meta = g
          check(g)
          @loose_meta = nil
          resync_meta(g)
        end
      else
        con = conflict(g, doc)
        # without a merge, what happens to definitions of names that exist depends on the format
        return if !merge && doc.names.any? { |n| g.find(n) }
        if con || ambiguous?(g, doc)
          doubtful(g, doc, what, con) { ask.call(g.obj) }
        else
          run(g, what, -> { map = merge_model(g, doc); merge_aliases(g, doc, map); nil }, loose: :additions) { ask.call(g.obj) }
          @loose_meta = nil if @loose_meta.equal?(g) && resync_meta(g)
        end
      end
      check(h) unless h.equal?(g)
    ensure
      Sim.file(path, nil, 0, 0, -1) if path
    end
    # a failed merge may have merged some of the metadata
    def resync_meta(g)
      g.types.each do |n, t|
        c = g.classes[t] or next
        t.meta = c.metadata.keys.to_h { |k| [k, c.metadata.get(k)] }
        c.field_metadata.each { |f, md| t.fmeta[f.dup] = md.keys.to_h { |k| [k, md.get(k)] } } if t.kind == :cmp
      end
      true
    end
    def adopt(obj, what)
      g = RM.new(obj, "r#{@next += 1}")
      log("#{g.id}: #{what}")
      g
    end
    def keep(g)
      check(g)
      @regs << g if @regs.size < 5 && chance(1, 2)
    end
    # an operation that makes another registry: nothing of it is left if it fails
    def make(g, what)
      log("#{g.id}: #{what}")
      arm
      yield
    rescue Violation
      raise
    rescue Exception => e
      raise unless Sim.disarm_fault
      Sim.nontrivial
      Sim.count("failures reported as #{e.class}")
      nil
    ensure
      Sim.disarm_fault
      Sim.nontrivial if Sim.disarm
    end
    def op_copy(g)
      case draw(7)
      when 0
        o = make(g, 'duplicate it') { g.obj.dup } or return
        n = adopt(o, "a copy of #{g.id}")
        merge_model(n, g)
        merge_aliases(n, g, nil)
        keep(n)
      when 1, 2
        t = pick_type(g) or return
        name = name_of(g, t)
        how = draw(4)
        o = make(g, "minimal registry of #{name}") do
          case how
          when 0 then g.obj.minimal(name)
          when 1 then g.obj.minimal(name, true)
          when 2 then g.obj.minimal(name, false)
          else g.classes[t].minimal_registry
          end
        end or return
        n = adopt(o, "the minimal registry of #{name}")
        merge_model(n, g, [t])
        merge_aliases(n, g, nil) if how != 2
        bad('wrong-result', "the minimal registry is a #{o.class}") unless o.kind_of?(Typelib::Registry)
        keep(n)
      when 3
        if chance(1, 2)
          # an earlier state of the same registry
          op_alias(g) if chance(1, 2)
          o = make(g, 'duplicate it') { g.obj.dup } or return
          h = adopt(o, "a copy of #{g.id}")
          merge_model(h, g)
          merge_aliases(h, g, nil)
          check(h)
          (1 + draw(3)).times { chance(3, 4) ? op_create(g) : op_alias(g) }
        else
          h = pick(@regs)
          return if h.equal?(g)
        end
        wa = chance(1, 2)
        o = make(g, "what is not in #{h.id}") { chance(1, 2) || wa ? g.obj.minimal(h.obj, wa) : g.obj.minimal(h.obj) } or return
        n = adopt(o, "what #{g.id} has in addition to #{h.id}")
        merge_model(n, g, g.types.values.reject { |t| h.find(t.name) || (%i{arr ptr}.include?(t.kind) && h.find(t.name.sub(/(\*|\[\d+\])+\z/, ''))) })
        g.aliases.merge(g.derived).each do |a, t|
          next if !wa && h.find(a)
          u = n.types[t.name] or next
          (g.aliases[a] ? n.aliases : n.derived)[a] = u unless n.find(a)
          n.once[a] = true
        end
        keep(n)
      when 4, 5
        return if g.types.each_value.any? { |t| t.kind == :num && t.size == 16 } && false
        xml = make(g, 'export it') { g.obj.to_xml } or return
        into = nil
        o = make(g, 'load the export') { chance(1, 2) ? Typelib::Registry.from_xml(xml) : Typelib::Registry.new.merge_xml(xml) } or return
        n = adopt(o, "what #{g.id} exports")
        roots = g.types.values.find_all { |t| !%i{arr ptr}.include?(t.kind) } + g.aliases.values
        merge_model(n, g, roots)
        merge_aliases(n, g, nil)
        # derived aliases are not part of the export
        n.derived.clear
        strip_meta(n)
        keep(n)
      else
        t = pick_type(g) or return
        h = pick(@regs)
        return if h.equal?(g) || !g.classes[t]
        part = RM.new(nil, '')
        merge_model(part, g, [t])
        merge_aliases(part, g, nil)
        return if conflict(h, part) || ambiguous?(h, part)
        run(h, "add #{t.name} of #{g.id}", -> { merge_model(h, part); merge_aliases(h, part, nil); nil }, loose: :additions) { h.obj.add(g.classes[t]) }
        @loose_meta = nil if @loose_meta.equal?(h) && resync_meta(h)
      end
    end
    # arrays and pointers are not part of an export, which has no place for their metadata
    def strip_meta(n)
      n.types.each_value { |t| t.meta = {} if %i{arr ptr}.include?(t.kind) }
    end
    def op_resize(g)
      sizes = {}
      req = {}
      strings = false
      old = {}.compare_by_identity
      g.types.each_value { |t| old[t] = t.size }
      (1 + draw(2)).times do
        t = pick_type(g) or return
        next unless %i{num enum opq}.include?(t.kind)
        sizes[t.name] = [t, t.kind == :opq ? 1 + draw(24) : pick([1, 2, 4, 8])]
      end
      return if sizes.empty?
      arg = sizes.to_h do |n, (t, s)|
        [chance(1, 3) && g.classes[t] ? g.classes[t] : name_of(g, t), s]
      end
      effect = lambda do
        done = {}.compare_by_identity
        visit = lambda do |t|
          next if done[t]
          done[t] = true
          next if t.kind == :ptr
          t.deps.each { |d| visit.call(d) }
          case t.kind
          when :cmp
            # a field keeps its distance to the fields before it that end before it starts
            ends = []
            t.fields.each do |f|
              before = ends.find_all { |o, _| o <= f[2] }
              o = f[2]
              f[2] += (before.map(&:last).max || 0) - (before.map(&:first).max || 0)
              ends << [o + old[f[1]], f[2] + f[1].size]
            end
            rest = [t.size - (ends.map(&:first).max || 0), 0].max
            t.size = (ends.map(&:last).max || 0) + rest
          when :arr then t.size = t.elem.size * t.count
          else t.size = sizes[t.name][1] if sizes[t.name]
          end
        end
        g.types.values.each { |t| visit.call(t) }
        nil
      end
      log("#{g.id}: resize #{sizes.map { |n, (_, s)| "#{n}=#{s}" }.join(' ')}")
      effect.call
      Sim.arm(draw(5), Sim.small(60)) if chance(1, 2)
      if arg.size == 1 && chance(1, 2) then g.obj.resize_type(*arg.first)
      else g.obj.resize(arg)
      end
      Sim.nontrivial if Sim.disarm
      check(g)
      # values of removed types remain as they were, but no longer match the types they are made of
      @gone.delete_if { |d| d.reg.equal?(g) }
    end
    # the block of an enumeration modifies the registry
    def op_each(g)
      return if g.types.empty?
      g2 = g
      wa = chance(1, 2)
      log("#{g.id}: enumerate it while it changes")
      want = (wa ? g.names : g.types.keys)
      todo = draw(4)
      seen = []
      k = draw(want.size)
      arm_gc
      g.obj.each(with_aliases: wa) do |*a|
        n = wa ? a[0] : a[0].name
        seen << n
        next unless seen.size == k + 1
        case todo
        when 0 then op_create(g2)
        when 1 then op_alias(g2)
        when 2 then op_remove(g2)
        else Sim.gc(draw(5))
        end
      end
      Sim.nontrivial if Sim.disarm
      bad('wrong-answer', "#{g.id}: each gives #{(seen - want).inspect} in addition") unless (seen - want).empty?
      bad('wrong-answer', "#{g.id}: each gives names twice") unless seen.uniq == seen
      lost = want - seen
      bad('wrong-answer', "#{g.id}: each leaves out #{lost.inspect}") unless lost.all? { |n| !g.find(n) }
    end

    # ---- access through a Ruby namespace ------------------------------------------------------------
    def export(g)
      mod = chance(1, 2) ? Module.new : Typelib::RegistryExport::Namespace.new
      named = chance(1, 3) ? pick(%w{Foo T1 Camel}) : nil
      if named
        Object.const_set(named, mod)
        Object.send(:remove_const, named)
      end
      if chance(1, 3) then g.obj.export_to_ruby(mod) { |t, e| e }
      else g.obj.export_to_ruby(mod)
      end
      mod
    end
    def op_export(g)
      log("#{g.id}: access through a module")
      (1 + draw(4)).times do
        arm_gc
        relaxed = chance(1, 3)
        # what was found once, under whatever name, remains found there
        g.mod = nil if relaxed
        at = (g.mod ||= export(g))
        prefix = '/'
        path = []
        names = candidates(g)
        target = pick(names) or break
        comps = components(target)
        comps[draw(comps.size)] = pick(BASES + ['nope']) if chance(1, 5)
        comps.each do |m|
          base, args = m =~ /\A([^<]+)<(.*)>\z/m ? [$1, $2.split(',')] : [m, []]
          as_const = relaxed && args.empty? && Module === at
          ask = as_const ? base.camelcase : base
          break if ask !~ /\A[A-Za-z]\w*\z/ || (as_const && ask !~ /\A[A-Z]/) || RESERVED.include?(ask)
          args = args.map { |a| (t = g.find(a)) && g.classes[t] && g.classes[t].name == a && chance(1, 2) ? g.classes[t] : a }
          path << ask
          what, want, next_prefix = lookup(g, prefix, as_const ? ask : m, as_const)
          begin
            got = as_const ? at.const_get(ask, false) : at.public_send(ask, *args)
          rescue Typelib::RegistryExport::NotFound, NoMethodError, NameError => e
            raise if e.kind_of?(Violation)
            bad('export', "#{g.id}: #{path.join('.')} is not found (#{e.class} #{e.message}), there is #{want.map(&:name).inspect}") if what == :type
            bad('export', "#{g.id}: #{path.join('.')} is not found (#{e.class} #{e.message}), there are types called #{next_prefix[0]}...") if what == :space
            break
          end
          case what
          when :none then bad('export', "#{g.id}: #{path.join('.')} gives #{describe(got)}")
          when :type
            ok = want.find { |t| exported?(g, t, got) }
            bad('export', "#{g.id}: #{path.join('.')} gives #{describe(got)} instead of #{want.map(&:name).inspect}") unless ok
            break if want.size > 1
            prefix = ok.name + '/'
          when :space
            bad('export', "#{g.id}: #{path.join('.')} gives #{describe(got)} instead of the namespace #{next_prefix.inspect}") unless got.kind_of?(Typelib::RegistryExport::Namespace) && next_prefix.include?(got.__typelib_registry_export_typename_prefix)
            prefix = got.__typelib_registry_export_typename_prefix
          end
          at = got
        end
        Sim.nontrivial if Sim.disarm
      end
    end
    RESERVED = %w{name size registry A}.first(3)
    def describe(x) = x.kind_of?(Class) && x <= Typelib::Type ? x.name : x.kind_of?(Typelib::RegistryExport::Namespace) ? "the namespace #{x}" : x.inspect
    def candidates(g) = g.names
    def components(name)
      r = [+'']
      depth = 0
      name[1..-1].each_char do |ch|
        depth += 1 if ch == '<'
        depth -= 1 if ch == '>'
        ch == '/' && depth == 0 ? r << +'' : r.last << ch
      end
      r
    end
    def exported?(g, t, got)
      case t.kind
      when :num then got == (t.cat == :float ? Float : Numeric)
      else got.equal?(g.classes[t])
      end
    end
    def lookup(g, prefix, m, relaxed)
      tries = relaxed ? [m, m.snakecase, m.camelcase] : [m]
      tries.each { |x| t = g.find(prefix + x) and return [:type, [t]] }
      if relaxed
        all = g.types.values.find_all { |t| t.name.start_with?(prefix) && t.name[prefix.size..-1] !~ /\// && split(t.name)[1].snakecase == m.snakecase }
        return [:type, all] unless all.empty?
      end
      tries.each { |x| return [:space, nil, ["#{prefix}#{x}/"]] if g.types.keys.any? { |n| n.start_with?("#{prefix}#{x}/") } }
      if relaxed
        all = g.types.keys.find_all { |n| n.start_with?(prefix) }.map { |n| components(n[prefix.size - 1..-1])[0] }.uniq.find_all { |x| x.snakecase == m.snakecase }
        return [:space, nil, all.map { |x| "#{prefix}#{x}/" }] unless all.empty?
      end
      [:none]
    end

    def op
      @regs.delete_if { |g| g.obj.nil? }
      g = @regs.empty? ? new_registry : pick(@regs)
      case draw(25)
      when 0..5 then op_create(g)
      when 6..7 then op_derive(g)
      when 8..9 then op_alias(g)
      when 10 then op_remove(g)
      when 11..13 then op_query(g)
      when 14..15 then op_meta(g)
      when 16 then op_merge(g)
      when 17..18 then op_copy(g)
      when 19 then op_resize(g)
      when 20 then op_each(g)
      when 21 then op_export(g)
      when 24 then op_import(g)
      when 22 then op_gone unless @gone.empty?
      else
        case draw(3)
        when 0 then new_registry if @regs.size < 4
        when 1
          return if @regs.size < 2
          log("forget #{g.id}")
          g.obj = nil
          g.classes.clear
          @regs.delete(g)
        else
          log('collect')
          Sim.gc(draw(5))
        end
      end
    end
    def run_all
      (1 + draw(2)).times do
        g = new_registry
        (1 + draw(6)).times { Sim.span { op_create(g) } }
      end
      (3 + draw(25)).times { Sim.span { op } }
      @regs.each { |g| check(g) }
    end
  end
  def self.c39
    live0 = live
    regs0 = registries
    zones = Typelib::MemoryZone.table_size
    run_api
    overwrite(200)
    scrub
    log('forget everything')
    gc(0)
    overwrite(200)
    scrub
    gc(0)
  end
  def self.run_api = ApiWorld.new.run_all
end
