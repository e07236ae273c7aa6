# C36: histories of Ruby objects that refer to Typelib values, under seeded garbage collections.
# Every value has a mirror made of plain Ruby objects.
module Sim
  T = Struct.new(:kind, :name, :rb, :size, :code, :fields, :elem, :count, :symbols, :converted) do
    def leaf?; kind == :num || kind == :enum || kind == :str end
    def containers?
      case kind
      when :vec, :str then true
      when :cmp then fields.any? { |_, f| f.containers? }
      when :arr then elem.containers?
      else false
      end
    end
    def packed?     # no padding
      case kind
      when :cmp then fields.inject(0) { |s, (_, f)| s + f.size } == size && fields.all? { |_, f| f.packed? }
      when :arr, :vec then elem.packed?
      else true
      end
    end
  end
  Handle = Struct.new(:root, :path, :t, :obj, :raw)
  Root = Struct.new(:t, :obj, :m, :id, :keep, :pending)
  Alias = Struct.new(:root, :path, :t, :obj, :what)

  class << self
    def pick(a) = a[draw(a.size)]
    def chance(n, d) = draw(d) >= d - n
    def bad(cls, msg) = violate(cls, msg)
    def span
      self.begin
      r = yield
      self.end
      r
    end
  end

  class World
    GC_KINDS = 5
    def s = Sim
    def draw(n) = Sim.draw(n)
    def chance(a, b) = Sim.chance(a, b)
    def pick(a) = Sim.pick(a)
    def log(m) = Sim.log(m)

    attr_reader :types, :reg, :roots
    NUMS = [['/int8_t', 1, :sint, 'c'], ['/uint8_t', 1, :uint, 'C'], ['/int16_t', 2, :sint, 's<'], ['/uint16_t', 2, :uint, 'S<'],
            ['/int32_t', 4, :sint, 'l<'], ['/uint32_t', 4, :uint, 'L<'], ['/int64_t', 8, :sint, 'q<'], ['/uint64_t', 8, :uint, 'Q<'],
            ['/float', 4, :float, 'e'], ['/double', 8, :float, 'E']]

    def initialize(faults = false)
      @faults = faults
      @types = []
      @roots = []
      @handles = []
      @aliases = []
      @next = 0
      @standard = false
    end

    # ---- types ------------------------------------------------------------------------------------
    def make_registry
      @reg = Typelib::Registry.new
      if chance(1, 2)
        @standard = true
        Typelib::Registry.add_standard_cxx_types(@reg)
      end
      names = NUMS.dup
      (1 + draw(4)).times do
        n = names.delete_at(draw(names.size))
        rb = @standard ? @reg.get(n[0]) : @reg.create_numeric(n[0], n[1], n[2])
        @types << T.new(:num, n[0], rb, n[1], n[3])
      end
      if @standard && chance(1, 2)
        @types << T.new(:str, '/std/string', @reg.get('/std/string'), @reg.get('/std/string').size)
      end
      if chance(1, 2)
        syms = {}
        v = draw(3)
        size, code = pick([[0, 'l<'], [0, 'l<'], [1, 'C'], [2, 's<'], [8, 'q<']])
        rb = @reg.create_enum('/E', size) do |e|
          (1 + draw(3)).times { |i| e.add("S#{i}", v); syms["S#{i}"] = v; v += 1 + draw(50) }
        end
        @types << T.new(:enum, '/E', rb, rb.size, code, nil, nil, nil, syms)
      end
      (1 + draw(5)).times { |i| Sim.span { derive(i) } }
      @types.each { |t| log("type #{t.name} size #{t.size}#{' ' + t.rb.each_field.map { |n, ft| "#{n}:#{ft.name}@#{t.rb.offset_of(n)}" }.join(' ') if t.kind == :cmp}") }
    end
    def derive(i)
      case draw(4)
      when 0, 1
        fields = {}
        off = 0
        rb = @reg.create_compound("/C#{i}", 0) do |c|
          (1 + draw(4)).times do |k|
            f = pick(@types)
            off += draw(9) if chance(1, 3)
            off = (off + 7) / 8 * 8 if f.containers?
            n = "f#{k}"
            c.add(n, f.rb, off)
            fields[n] = f
            off += f.size
          end
        end
        @types << T.new(:cmp, rb.name, rb, rb.size, nil, fields)
      when 2
        e = pick(@types)
        return if e.name.end_with?(']') || e.size > 300
        n = 1 + draw(3)
        rb = @reg.create_array(e.rb, n)
        return if @types.any? { |t| t.name == rb.name }
        @types << T.new(:arr, rb.name, rb, rb.size, nil, nil, e, n)
      else
        e = pick(@types)
        rb = @reg.create_container('/std/vector', e.rb)
        return if @types.any? { |t| t.name == rb.name }
        @types << T.new(:vec, rb.name, rb, rb.size, nil, nil, e)
      end
    end

    # ---- mirrors ----------------------------------------------------------------------------------
    def gen(t, depth = 0)
      case t.kind
      when :num
        bits = t.size * 8
        case t.code
        when 'e', 'E' then (draw(64) - 32) * 0.5
        when /[csq]/, 'l<' then (draw(4) == 0 ? (1 << (bits - 1)) - 1 : draw(200) - 100)
        else (draw(4) == 0 ? (1 << bits) - 1 : draw(200))
        end
      when :enum then pick(t.symbols.keys)
      when :str then (0...Sim.small(40)).map { 32 + draw(90) }.pack('C*')
      when :cmp then t.fields.transform_values { |f| gen(f, depth + 1) }
      when :arr then Array.new(t.count) { gen(t.elem, depth + 1) }
      when :vec then Array.new(depth > 2 ? draw(2) : Sim.small(5)) { gen(t.elem, depth + 1) }
      end
    end
    def zero(t)
      case t.kind
      when :num then t.code =~ /[eE]/ ? 0.0 : 0
      when :enum then 'S0'     # what enumerations are initialised to
      when :str then ''.b
      when :cmp then t.fields.transform_values { |f| zero(f) }
      when :arr then Array.new(t.count) { zero(t.elem) }
      when :vec then []
      end
    end
    def decode(t, b, pos = [0])
      case t.kind
      when :num
        v = b.byteslice(pos[0], t.size).unpack1(t.code)
        pos[0] += t.size
        v
      when :enum
        v = b.byteslice(pos[0], t.size).unpack1(t.code)
        pos[0] += t.size
        t.symbols.key(v) || Sim.bad('invalid-content', "#{t.name} holds #{v}")
      when :cmp then t.fields.transform_values { |f| decode(f, b, pos) }
      when :arr then Array.new(t.count) { decode(t.elem, b, pos) }
      when :vec, :str
        n = b.byteslice(pos[0], 8).unpack1('Q<')
        pos[0] += 8
        Sim.bad('invalid-content', "#{t.name} holds #{n} elements") if n > 10000
        if t.kind == :vec then Array.new(n) { decode(t.elem, b, pos) }
        else
          pos[0] += n
          b.byteslice(pos[0] - n, n)
        end
      end
    end
    def encode(t, m)
      case t.kind
      when :num then [m].pack(t.code)
      when :enum then [m == :none ? 0 : t.symbols[m]].pack(t.code)
      when :str then [m.bytesize].pack('Q<') + m.b
      when :cmp then t.fields.map { |n, f| encode(f, m[n]) }.join
      when :arr then m.map { |e| encode(t.elem, e) }.join
      when :vec then [m.size].pack('Q<') + m.map { |e| encode(t.elem, e) }.join
      end
    end
    def copy(m)
      case m
      when Hash then m.transform_values { |v| copy(v) }
      when Array then m.map { |v| copy(v) }
      when String then m.dup
      else m
      end
    end
    def valid_enum?(t, m)
      case t.kind
      when :enum then m != :none
      when :cmp then t.fields.all? { |n, f| valid_enum?(f, m[n]) }
      when :arr, :vec then m.all? { |e| valid_enum?(t.elem, e) }
      else true
      end
    end
    # what the program is given when it asks for Ruby objects
    def simple(t, m)
      case t.kind
      when :num then m
      when :enum then m == :none ? '' : m
      when :str then m
      when :cmp then t.fields.to_h { |n, f| [n, simple(f, m[n])] }
      else m.map { |e| simple(t.elem, e) }
      end
    end
    def at(root, path)
      m = root.m
      path.each do |st|
        return nil if m.kind_of?(Array) && st >= m.size
        m = m[st]
      end
      [m]
    end
    def put(root, path, m)
      if path.empty? then root.m = m
      else at(root, path[0..-2])[0][path[-1]] = m
      end
    end

    # ---- navigation -------------------------------------------------------------------------------
    def step(t, obj, k, raw)
      case t.kind
      when :cmp
        if t.fields[k].kind == :cmp && chance(1, 2) then obj.send(k)
        else raw ? obj.raw_get(k) : obj.get(k)
        end
      when :arr then raw ? obj.raw_get(k) : obj[k]
      when :vec then raw ? obj.raw_get(k) : obj[k]
      end
    end
    def sub(t, k) = t.kind == :cmp ? t.fields[k] : t.elem
    def keys(t, m)
      case t.kind
      when :cmp then t.fields.keys
      when :arr, :vec then (0...m.size).to_a
      else []
      end
    end
    # a random part of a value: [path, type, object (a Typelib value)]
    def descend(root, max = 99)
      settle(root)
      path = []
      t = root.t
      obj = root.obj
      m = root.m
      while path.size < max && !t.leaf? && !(ks = keys(t, m)).empty? && chance(3, 4)
        k = pick(ks)
        raw = true
        obj = step(t, obj, k, raw)
        m = m[k]
        t = sub(t, k)
        path << k
      end
      [path, t, obj]
    end

    # ---- checks -----------------------------------------------------------------------------------
    def check_bytes(what, obj, t, m)
      b = obj.to_byte_array(merge_skip_copy: false)
      e = encode(t, m)
      if b != e
        Sim.bad('wrong-content', "#{what} of #{t.name} holds #{b.unpack1('H*')}, expected #{e.unpack1('H*')}")
      end
    end
    def check_simple(what, obj, t, m)
      g = obj.to_simple_value
      e = simple(t, m)
      e = e.b if e.kind_of?(String)
      g = g.b if g.kind_of?(String)
      Sim.bad('wrong-content', "#{what} of #{t.name} reads #{g.inspect}, expected #{e.inspect}") unless same(g, e)
    end
    def same(a, b)
      case b
      when Hash then a.kind_of?(Hash) && a.size == b.size && b.all? { |k, v| same(a[k], v) }
      when Array then a.kind_of?(Array) && a.size == b.size && b.each_index.all? { |i| same(a[i], b[i]) }
      when String then a.to_s.b == b.b
      else a == b
      end
    end
    def check(what, obj, t, m)
      if chance(1, 2) then check_bytes(what, obj, t, m)
      else check_simple(what, obj, t, m)
      end
    end
    # the parts that lie in the element buffer of a container may have been invalidated
    def through_container?(root, path)
      t = root.t
      path.each { |k| return true if t.kind == :vec; t = sub(t, k) }
      false
    end
    def check_handle(h)
      cur = at(h.root, h.path)
      what = "a handle on #{h.path.inspect}"
      begin
        if cur then check(what, h.obj, h.t, cur[0])
        else h.obj.to_byte_array(merge_skip_copy: false)
        end
      rescue TypeError => e
        raise unless e.message.start_with?('invalidated object')
        if !through_container?(h.root, h.path)
          Sim.bad('handle-invalidated', "#{what} of #{h.t.name} was invalidated, though its place never moves")
        end
        Sim.count('handles found invalidated')
        @handles.delete_if { |o| o.equal?(h) }
        return
      end
      Sim.bad('stale-handle', "#{what} of #{h.t.name} is still valid, though the element is gone") if !cur
    end
    def check_all
      @roots.each { |r| check("value #{r.id}", r.obj, r.t, r.m) if r.obj }
      @handles.dup.each { |h| check_handle(h) }
      @aliases.each { |a| check_bytes(a.what, a.obj, a.t, at(a.root, a.path)[0]) }
    end

    def refused(what, *errors)
      yield
      Sim.bad('not-refused', "#{what} is accepted")
    rescue *errors => e
      Sim.count('operations refused')
      e
    end
    # ---- operations -------------------------------------------------------------------------------
    # before the operation proper. With faults, +root+ is the value it modifies and +path+ the part of it.
    def arm(root = nil, path = [])
      return unless chance(2, 3)
      if @faults
        @target = root && [root, path.dup]
        return Sim.arm_fault(draw(2), chance(1, 4) ? draw(200) : Sim.small(40), chance(1, 4) ? 1 + draw(5) : 1)
      end
      Sim.arm(draw(GC_KINDS), chance(1, 4) ? draw(400) : Sim.small(60))
    end
    def new_root(t = pick(@types))
      m = gen(t)
      case draw(6)
      when 0 then m = zero(t); obj = t.rb.zero
      when 1 then obj = t.rb.from_buffer(encode(t, m), merge_skip_copy: false)
      when 2
        obj = t.rb.new
        obj.from_buffer(encode(t, m), merge_skip_copy: false)
      when 3
        if t.packed? then obj = t.rb.wrap(encode(t, m))
        else obj = t.rb.zero; m = zero(t)
        end
      when 4
        obj = Typelib.from_ruby(ruby(t, m), t.rb)
      else
        if t.packed? && !t.containers? && t.size > 0
          # the memory is that of a string, which only the value keeps alive
          obj = t.rb.wrap(encode(t, m).to_memory_ptr)
          Sim.count('values in the memory of a string')
        else obj = t.rb.from_buffer(encode(t, m), merge_skip_copy: false)
        end
      end
      add_root(t, obj, m, nil)
    end
    def add_root(t, obj, m, keep)
      r = Root.new(t, obj, m, @next += 1, keep, [])
      @roots << r
      log("value #{r.id} of #{t.name}")
      r
    end
    # a Ruby object a program would assign
    def ruby(t, m)
      case t.kind
      when :num then m
      when :enum then m.to_sym
      when :str then m.dup
      when :cmp then chance(1, 3) ? t.fields.map { |n, f| ruby(f, m[n]) } : t.fields.to_h { |n, f| [n, ruby(f, m[n])] }
      when :vec then m.map { |e| t.elem.kind == :enum ? t.elem.rb.from_buffer(encode(t.elem, e)) : ruby(t.elem, e) }
      else m.map { |e| ruby(t.elem, e) }
      end
    end
    def typed(t, m)
      if (t.kind == :num && chance(1, 2)) || (t.leaf? && chance(1, 2)) then ruby(t, m)
      elsif chance(1, 4) && (same_type = @roots.find { |r| r.obj && r.t == t && same(simple(t, r.m), simple(t, m)) }) then same_type.obj
      else t.rb.from_buffer(encode(t, m), merge_skip_copy: false)
      end
    end
    def converted?(t)
      case t.kind
      when :str then true
      when :cmp then t.fields.values.any? { |f| converted?(f) }
      when :arr then t.elem.name == '/int8_t' || converted?(t.elem)     # C strings
      when :vec then converted?(t.elem)
      else false
      end
    end
    def assign(r, path, t, obj, k, v)
      case t.kind
      when :cmp
        if chance(1, 2) then obj.set(k, v)
        else
          r.pending << path + [k] if converted?(t.fields[k])
          obj.send("#{k}=", v)
        end
      else obj[k] = v
      end
    end
    # What is assigned to a field that has a conversion is kept as is until the value is needed, and overrides
    # what is written by the raw accessors. Programs have to use one or the other.
    def settle(r)
      return if r.pending.empty? || !r.obj
      pending = r.pending
      r.pending = []
      pending.each do |path|
        m = at(r, path) or next
        t, obj = resolve(r, path[0..-2])
        obj.set(path[-1], ruby(sub(t, path[-1]), m[0]))
      end
    end
    def op_set(r)
      # a part that has parts
      path, t, obj = descend(r)
      if path.empty? && t.leaf?
        m = gen(t)
        return if t.kind == :str
        log("set value #{r.id}")
        obj.typelib_from_ruby(ruby(t, m))
        return put(r, path, m)
      end
      if t.leaf? || keys(t, at(r, path)[0]).empty?
        return if path.empty?
        path = path[0..-2]
        t, obj = resolve(r, path)
      end
      m = at(r, path)[0]
      k = pick(keys(t, m))
      st = sub(t, k)
      nm = gen(st, 1)
      v = t.kind == :vec && st.kind == :enum ? st.rb.from_buffer(encode(st, nm)) : typed(st, nm)
      log("set #{r.id} #{(path + [k]).inspect}")
      arm(r, path + [k])
      assign(r, path, t, obj, k, v)
      put(r, path + [k], nm)
    end
    def resolve(r, path)
      t = r.t
      obj = r.obj
      path.each { |k| obj = step(t, obj, k, true); t = sub(t, k) }
      [t, obj]
    end
    def find_container(r)
      found = []
      walk(r.t, r.m, []) { |t, m, path| found << [path.dup, t, m] if t.kind == :vec }
      found.empty? ? nil : pick(found)
    end
    def walk(t, m, path, &block)
      yield(t, m, path)
      keys(t, m).each do |k|
        path.push(k)
        walk(sub(t, k), m[k], path, &block)
        path.pop
      end
    end
    # the types as used in a container: conversions give plain Ruby objects in blocks
    def op_container(r)
      path, t, m = find_container(r)
      return op_set(r) unless path
      settle(r) if chance(3, 4) || r.pending.any? { |p| path[0, p.size] == p }
      _, obj = resolve(r, path)
      where = "#{r.id} #{path.inspect}"
      case draw(11)
      when 0, 1
        n = 1 + draw(3)
        news = Array.new(n) { gen(t.elem, 1) }
        vs = news.map { |e| t.elem.kind == :enum ? t.elem.rb.from_buffer(encode(t.elem, e)) : typed(t.elem, e) }
        log("push #{n} to #{where}")
        arm(r, path)
        obj.push(*vs)
        m.concat(news)
      when 2
        return if m.empty?
        i = draw(m.size)
        log("push element #{i} of #{where} itself")
        e = obj.raw_get(i)
        arm(r, path)
        obj.push(e)
        m << copy(m[i])
      when 3
        log("clear #{where}")
        arm(r, path)
        obj.clear
        m.clear
      when 4
        return if m.empty?
        i = draw(m.size)
        # the first element that compares equal goes
        i = m.index { |e| encode(t.elem, e) == encode(t.elem, m[i]) }
        v = typed(t.elem, m[i])
        return if t.elem.kind == :enum || !t.elem.rb.respond_to?(:size)
        log("erase element #{i} of #{where}")
        arm(r, path)
        r1 = obj.erase(v)
        Sim.bad('erase-result', "erase of an element that is there returns #{r1.inspect}") unless r1 == true
        m.delete_at(i)
      when 5
        del = m.map { chance(1, 3) }
        log("delete #{del.inspect} of #{where}")
        arm(r, path)
        i = -1
        obj.delete_if { |el| i += 1; inside(el, t.elem, m[i], i); del[i] }
        Sim.bad('missing-element', "#{i + 1} elements visited instead of #{m.size}") if i + 1 != m.size
        k = -1
        m.delete_if { del[k += 1] }
      when 6
        log("iterate on #{where}")
        arm
        i = -1
        stop = chance(1, 3) ? draw(m.size + 1) : nil
        how = draw(2)
        body = proc do |el|
          i += 1
          inside(el, t.elem, m[i], i)
          Sim.gc(draw(GC_KINDS)) if chance(1, 6)
        end
        begin
          if how == 0 then obj.each { |el| body[el]; break if i == stop }
          else obj.raw_each { |el| body[el]; raise StopIteration if i == stop }
          end
        rescue StopIteration
        end
        n = stop && stop < m.size ? stop + 1 : m.size
        Sim.bad('missing-element', "#{i + 1} elements visited instead of #{n}") if i + 1 != n
      when 7
        return if m.empty?
        i = draw(m.size)
        nm = gen(t.elem, 1)
        v = t.elem.kind == :enum ? t.elem.rb.from_buffer(encode(t.elem, nm)) : typed(t.elem, nm)
        log("set element #{i} of #{where}")
        arm(r, path)
        obj[i] = v
        m[i] = nm
      when 9
        # elements somebody holds are cut off, without a reallocation
        if m.size < 2 + draw(4)
          news = Array.new(2 + draw(3)) { gen(t.elem, 2) }
          obj.concat(news.map { |e| t.elem.rb.from_buffer(encode(t.elem, e), merge_skip_copy: false) })
          m.concat(news)
        end
        held = m.each_index.find_all { chance(1, 2) }
        held.each { |i| @handles << Handle.new(r, path + [i], t.elem, obj.raw_get(i)) }
        n = draw(m.size)
        nm = Array.new(n) { |i| chance(1, 2) ? copy(m[i]) : gen(t.elem, 1) }
        how = draw(2)
        log("cut #{where} down to #{n} of #{m.size} elements, #{held.inspect} are held, #{how == 0 ? 'by a copy' : 'by loading it'}")
        settle(r)
        v = typed(t, nm)
        arm(r, path)
        if how == 0 then Typelib.copy(obj, v)
        else obj.from_buffer(encode(t, nm), merge_skip_copy: false)
        end
        m.replace(nm)
      when 10
        return unless memcpy?(t.elem)
        nm = Array.new(draw(5)) { gen(t.elem, 1) }
        v = typed(t, nm)
        log("set the memory of #{where} to #{nm.size} elements")
        settle(r)
        arm(r, path)
        obj.raw_memcpy(nm.empty? ? obj.zone_address : v.raw_get(0).zone_address, nm.size * t.elem.size)
        m.replace(nm)
      else
        # the deletion stops in the middle
        return if m.empty?
        del = m.map { chance(1, 3) }
        stop = draw(m.size)
        log("delete #{del.inspect} of #{where}, interrupted at #{stop}")
        arm(r, path)
        i = -1
        how = draw(2)
        begin
          obj.delete_if { |el| i += 1; (how == 0 ? break : raise(StopIteration)) if i == stop; del[i] }
        rescue StopIteration
        end
        got = obj.to_byte_array(merge_skip_copy: false)
        kept = m.each_with_index.reject { |_, k| k < stop && del[k] }.map(&:first)
        if got == encode(t, m)
        elsif got == encode(t, kept) then m.replace(kept)
        else Sim.bad('interrupted-deletion', "#{where} holds #{got.unpack1('H*')} after a deletion interrupted at element #{stop}, expected all elements or those not deleted so far")
        end
        Sim.count('iterations left by an exception or break')
      end
    end
    def memcpy?(t)
      case t.kind
      when :num, :enum then true
      when :cmp then t.fields.values.all? { |f| memcpy?(f) }
      when :arr then memcpy?(t.elem)
      else false
      end
    end
    # what a block is given: either a plain Ruby object or a Typelib value
    def inside(el, t, m, i)
      if el.kind_of?(Typelib::Type) then check("element #{i} given to the block", el, t, m)
      elsif t.kind == :arr && t.elem.name == '/int8_t' && el.kind_of?(String)
        e = (m.index(0) ? m[0, m.index(0)] : m).pack('c*')
        Sim.bad('wrong-content', "element #{i} given to the block is #{el.inspect}, expected #{e.inspect}") unless el.b == e
      else
        e = m
        ok = t.kind == :enum ? (m == :none ? el.nil? : el.to_s == m) : same(el, simple(t, m))
        Sim.bad('wrong-content', "element #{i} given to the block is #{el.inspect}, expected #{e.inspect}") unless ok
      end
    end
    def op_copy(r)
      path, t, obj = chance(1, 2) ? [[], r.t, r.obj] : descend(r)
      others = []
      @roots.each { |o| walk(o.t, o.m, []) { |ot, om, p| others << [o, p.dup] if ot == t && !(o.equal?(r)) } if o.obj }
      return op_set(r) if others.empty?
      o, p = pick(others)
      settle(o)
      _, from = resolve(o, p)
      log("copy #{o.id} #{p.inspect} to #{r.id} #{path.inspect}")
      arm(r, path)
      Typelib.copy(obj, from)
      put(r, path, copy(at(o, p)[0]))
    end
    def op_reload(r)
      m = gen(r.t)
      log("load #{r.id}")
      b = encode(r.t, m)
      arm(r)
      r.obj.from_buffer(b, merge_skip_copy: false)
      r.m = m
    end
    def op_zero(r)
      path, t, obj = chance(1, 2) ? [[], r.t, r.obj] : descend(r)
      return if t.kind == :enum || !valid_zero?(t)
      log("zero #{r.id} #{path.inspect}")
      arm(r, path)
      obj.zero!
      put(r, path, zero(t))
    end
    def valid_zero?(t)
      case t.kind
      when :enum then t.symbols.key(0)
      when :cmp then t.fields.values.all? { |f| valid_zero?(f) }
      when :arr then valid_zero?(t.elem)
      else true
      end
    end
    def op_swap(r)
      return if r.t.containers? || r.t.kind == :enum || has_enum?(r.t)
      log("swap #{r.id} twice")
      arm
      b = r.obj.endian_swap.endian_swap
      check_bytes('the value swapped twice', b, r.t, r.m)
      add_root(r.t, b, copy(r.m), nil) if chance(1, 2)
    end
    def has_enum?(t)
      case t.kind
      when :enum then true
      when :cmp then t.fields.values.any? { |f| has_enum?(f) }
      when :arr, :vec then has_enum?(t.elem)
      else false
      end
    end
    def op_alias(r)
      k = draw(4)
      # arrays and templates have no pointers
      k = 1 if k != 1 && k != 3 && r.t.name.end_with?(']', '>')
      k = 1 if k == 3 && !@reg
      case k
      when 0
        settle(r)
        log("pointer to #{r.id}")
        arm
        p = r.obj.to_ptr
        d = p.deference
        Sim.bad('pointer', 'the pointed-to value is another object') unless d.equal?(r.obj)
        # the pointer alone keeps the value alive
        r.obj = nil
        r.keep = p
        @handles.delete_if { |h| h.root.equal?(r) } if chance(1, 2)
      when 1
        log("address of #{r.id}")
        arm
        @aliases << Alias.new(r, [], r.t, r.t.rb.from_address(r.obj.zone_address), 'a value at the same address')
      when 2
        log("copy of a pointer to #{r.id}")
        arm
        p = r.obj.to_ptr
        refused('copy of a pointer', RuntimeError) { p.dup }
        # the handle goes through the pointer only
        d = p.class.wrap(p.to_memory_ptr).deference
        @aliases << Alias.new(r, [], r.t, d, 'the target of a pointer')
      else
        @other ||= @reg.dup
        path, t, obj = descend(r)
        return if through_container?(r, path)
        log("cast #{r.id} #{path.inspect} to the same type of another registry")
        arm
        c = obj.cast(@other.build(t.name))
        @aliases << Alias.new(r, path, t, c, 'a cast value')
      end
    end
    def op_drop
      case draw(3)
      when 0
        return if @handles.empty?
        h = @handles.delete_at(draw(@handles.size))
        log("drop a handle on #{h.root.id} #{h.path.inspect}")
      when 1
        return if @aliases.empty?
        @aliases.delete_at(draw(@aliases.size))
        log('drop an alias')
      else
        r = pick(@roots)
        # those reached by address only are not kept alive by their target
        @aliases.delete_if { |a| a.root.equal?(r) && a.what != 'a cast value' }
        return if @handles.none? { |h| h.root.equal?(r) } && chance(1, 2)
        settle(r)
        log("drop value #{r.id}")
        r.obj = nil
        r.keep = nil
        @roots.delete_if { |o| o.equal?(r) }
      end
    end
    def op_registry
      case draw(5)
      when 0
        log('forget the registry')
        @forgotten = true
        @reg = nil
        @other = nil
      when 1
        t = pick(@types)
        log("metadata of #{t.name}")
        t.rb.metadata.set('key', "value #{@next += 1}")
        @meta = [t.rb.metadata, "value #{@next}"]
      when 2
        return unless @meta
        v = @meta[0].get('key')
        Sim.bad('metadata', "reads #{v.inspect}, expected #{@meta[1].inspect}") unless v == [@meta[1]]
      when 3
        return unless @reg
        t = pick(@types)
        log("minimal registry of #{t.name}")
        arm
        o = @reg.minimal(t.name)
        n = o.build(t.name)
        Sim.bad('minimal', "#{t.name} has another definition in its minimal registry") unless n == t.rb
        m = gen(t)
        v = n.from_buffer(encode(t, m), merge_skip_copy: false)
        o = n = nil
        @kept = [v, t, m]
      else
        return unless @kept
        check_bytes('a value of a forgotten registry', @kept[0], @kept[1], @kept[2])
        Typelib.copy(pick_root_of(@kept[1])&.obj || return, @kept[0])
        pick_root_of(@kept[1]).m = copy(@kept[2])
      end
    end
    def pick_root_of(t) = @roots.find { |r| r.t == t && r.obj }
    def leaves(t, m)
      case t.kind
      when :cmp then t.fields.flat_map { |n, f| leaves(f, m[n]) }
      when :arr then m.flat_map { |e| leaves(t.elem, e) }
      else [[t, m]]
      end
    end
    # the same content, seen in other ways
    def op_view(r)
      settle(r)
      path, t, obj = chance(1, 3) ? [[], r.t, r.obj] : descend(r)
      m = at(r, path)[0]
      w = "#{r.id} #{path.inspect}"
      case draw(5)
      when 0
        return unless %i{vec arr}.include?(t.kind)
        i = draw(m.size + 1)
        k = draw(m.size - i + 1)
        log("#{k} elements of #{w} from #{i} on")
        arm
        got = obj[i, k]
        if t.kind == :vec then check("the part [#{i}, #{k}]", got, t, m[i, k])
        else
          Sim.bad('missing-element', "#{got.size} elements instead of #{k}") unless got.size == k
          got.each_with_index { |e, j| inside(e, t.elem, m[i + j], i + j) }
        end
      when 1
        cols = leaves(t, m)
        return if cols.empty? || cols.any? { |x, v| %i{vec str}.include?(x.kind) || v == :none || (x.kind == :num && t_size(x) == 1) }
        log("#{w} as CSV")
        arm
        sep = pick([nil, ' ', ';', ', ', "\t"])
        got = (sep ? obj.to_csv(sep) : obj.to_csv).split(sep || ' ', -1)
        want = cols.map { |x, v| v.kind_of?(Float) ? nil : v.to_s }
        ok = got.size == want.size && got.zip(want).all? { |a, b| b.nil? || a == b }
        Sim.bad('wrong-content', "#{w} is #{got.inspect} as CSV, expected #{want.inspect}") unless ok
      when 2
        return unless t.kind == :cmp && !t.fields.empty?
        log("fields of #{w}")
        arm
        how = draw(4)
        got = case how
              when 0 then t.fields.keys.to_h { |n| [n, obj.get_field(n)] }
              when 1 then t.fields.keys.to_h { |n| [n, obj[n]] }
              when 2 then obj.each_field.to_a.to_h
              else obj.raw_each_field.to_a.to_h
              end
        Sim.bad('wrong-content', "#{w} has the fields #{got.keys.inspect}") unless got.keys == t.fields.keys
        got.each { |n, v| inside(v, t.fields[n], m[n], n) }
      when 3
        return unless t.kind == :num && has_float?(t)
        arm
        v = t.rb.new
        x, txt = [[Float::NAN, 'NaN'], [Float::INFINITY, 'Infinity'], [-Float::INFINITY, '-Infinity'], [1.5, 1.5]][draw(4)]
        v.typelib_from_ruby(x)
        got = [v.to_simple_value(special_float_values: :string), v.to_simple_value(special_float_values: :nil), v.to_simple_value.to_s]
        want = [txt, x == 1.5 ? 1.5 : nil, x.to_s]
        Sim.bad('wrong-content', "#{x} of #{t.name} gives #{got.inspect}") unless got == want
      else
        return unless t.kind == :arr || t.kind == :vec
        return unless t.elem.kind == :num && !m.empty?
        log("#{w} packed")
        arm
        got = obj.to_simple_value(pack_simple_arrays: true)
        want = { pack_code: t.elem.rb.pack_code, size: m.size, data: [t.kind == :vec ? encode(t, m).byteslice(8..-1) : encode(t, m)].pack('m0') }
        Sim.bad('wrong-content', "#{w} packed is #{got.inspect}, expected #{want.inspect}") unless got == want && got[:data].unpack1('m').unpack(got[:pack_code] + '*') == m
      end
    end
    def t_size(t) = t.rb.size
    def op_misc(r)
      case draw(9)
      when 6..8 then op_view(r)
      when 0
        log("duplicate #{r.id}")
        path, t, obj = chance(1, 2) ? [[], r.t, r.obj] : descend(r)
        arm
        d = obj.dup
        add_root(t, d, copy(at(r, path)[0]), nil)
      when 1
        o = @roots.find { |x| x.obj && x.t == r.t && !x.equal?(r) }
        return unless o
        arm
        got = (r.obj == o.obj)
        exp = encode(r.t, r.m) == encode(r.t, o.m)
        Sim.bad('comparison', "values #{r.id} and #{o.id} compare #{got}, expected #{exp}") if got != exp && !has_float?(r.t)
      when 2
        arm
        n = r.obj.marshalling_size
        Sim.bad('marshalling-size', "#{n} instead of #{r.obj.to_byte_array.size}") if n != r.obj.to_byte_array.size
      when 3
        arm
        r.obj.inspect
        r.obj.to_s
      when 4
        path, t, obj = descend(r)
        # accessors of converted fields keep the object
        return if t.leaf? || path.empty? || through_container?(r, path) || converted?(r.t)
        log("invalidate #{r.id} #{path.inspect}")
        # a framework gives up the part; the value itself stays
        before = encode(r.t, r.m)
        obj.invalidate
        obj = nil
        got = r.obj.to_byte_array(merge_skip_copy: false)
        Sim.bad('wrong-content', "value #{r.id} changed when one of its parts was invalidated") unless got == before
        Sim.gc(draw(GC_KINDS))
        got = r.obj.to_byte_array(merge_skip_copy: false)
        Sim.bad('wrong-content', "value #{r.id} changed after one of its parts was invalidated") unless got == before
        @handles.delete_if { |h| h.root.equal?(r) }
        @aliases.delete_if { |a| a.root.equal?(r) }
        @roots.delete_if { |o| o.equal?(r) }
      else
        arm
        i = -1
        case r.t.kind
        when :cmp
          r.obj.each_field { |n, v| i += 1 }
          Sim.bad('missing-element', "#{i + 1} fields visited") if i + 1 != r.t.fields.size
        when :arr
          r.obj.each { |v| i += 1; inside(v, r.t.elem, r.m[i], i) }
          Sim.bad('missing-element', "#{i + 1} elements visited") if i + 1 != r.t.count
        end
      end
    end
    def has_float?(t)
      case t.kind
      when :num then t.code =~ /[eE]/
      when :cmp then t.fields.values.any? { |f| has_float?(f) }
      when :arr, :vec then has_float?(t.elem)
      else false
      end
    end
    def op
      live = @roots.find_all(&:obj)
      r = live.empty? ? nil : pick(live)
      k = draw(@faults ? 22 : 20)
      case k
      when 0 then arm; new_root
      when 1..2
        return unless r
        path, t, obj = descend(r)
        return if path.empty?
        log("handle on #{r.id} #{path.inspect}")
        @handles << Handle.new(r, path, t, obj)
      when 3..5 then op_set(r) if r
      when 6..9 then op_container(r) if r
      when 10 then op_copy(r) if r
      when 11 then op_reload(r) if r
      when 12 then op_zero(r) if r
      when 13 then chance(1, 2) ? op_swap(r) : op_registry if r
      when 14..15 then op_alias(r) if r
      when 16 then op_drop unless @roots.empty?
      when 17 then op_misc(r) if r
      when 18 then op_registry
      when 20..21 then op_define
      else
        log('collect')
        Sim.gc(draw(GC_KINDS))
      end
      if @faults
        if Sim.disarm_fault
          Sim.nontrivial
          Sim.count('failures absorbed')
        end
      elsif Sim.disarm then Sim.nontrivial
      end
      # the values only a pointer refers to come back
      @roots.each do |x|
        next if x.obj || !x.keep || !chance(1, 2)
        x.obj = x.keep.deference
        x.keep = nil
        log("value #{x.id} back through its pointer")
      end
      # a handle taken while a value is only reachable through its parts
      Sim.state(Marshal.dump([@roots.map { |x| [x.t.name, x.obj.nil?, x.m] }, @handles.map(&:path), @aliases.size]))
    end
    # The operation is either done or raises, in which case nothing but the part of the value it was to modify may have
    # changed. That part holds something valid.
    def op_with_faults
      @target = nil
      before = @roots.map { |r| [r, copy(r.m)] }
      types = type_list
      begin
        op
      rescue Violation
        raise
      rescue Exception => e
        fired = Sim.disarm_fault
        raise unless fired
        Sim.nontrivial
        Sim.count("failures reported as #{e.class}")
        log("  failed: #{e.class}")
        @roots.each do |r|
          m = before.find { |o, _| o.equal?(r) }
          r.m = m[1] if m
        end
        adopt(*@target) if @target && @target[0].obj
        check_undefined(types) if types && @reg
        check_all
      ensure
        @defining = @together = nil
        Sim.disarm_fault
      end
    end
    # the types somebody defined (those derived from others appear when they are used)
    def type_list = @reg && @reg.each.map { |t| "#{t.name} #{t.size}" unless t.name.end_with?('*', ']', '>') }.compact.sort
    # take over what a failed operation left
    def adopt(r, path)
      old = copy(r.m)
      b = r.obj.to_byte_array(merge_skip_copy: false)
      pos = [0]
      r.m = decode(r.t, b, pos)
      Sim.bad('invalid-content', "#{b.size} bytes hold a value of #{pos[0]}") if pos[0] != b.size
      check_simple("value #{r.id} after a failed operation", r.obj, r.t, r.m)
      now = r.m
      rest = copy(now)
      if path.empty? then rest = old
      else
        o = path[0..-2].inject(old) { |m, k| m[k] }
        path[0..-2].inject(rest) { |m, k| m[k] }[path[-1]] = o[path[-1]]
      end
      unless encode(r.t, rest) == encode(r.t, old)
        Sim.bad('wrong-part', "value #{r.id}: a failed operation on #{path.inspect} changed something else: #{now.inspect} from #{old.inspect}")
      end
    end
    def run
      make_registry
      (1 + draw(3)).times { Sim.span { new_root } }
      (2 + draw(24)).times do
        Sim.span do
          if @faults then chance(1, 4) ? op_refused : op_with_faults
          else op
          end
        end
        check_all if chance(1, 3)
      end
      check_all
      if @meta
        v = @meta[0].get('key')
        Sim.bad('metadata', "reads #{v.inspect}, expected #{@meta[1].inspect}") unless v == [@meta[1]]
      end
    end
    def last_metadata = @meta
  end

  def self.run_world(faults = false)
    w = World.new(faults)
    w.run
    w.last_metadata
  end
  def self.overwrite(n) = n == 0 ? 0 : 1 + overwrite(n - 1)
  def self.registries
    n = 0
    ObjectSpace.each_object(Typelib::Registry) { n += 1 }
    n
  end
  # A few registries may be kept by the interpreter itself (its class variable caches refer to type classes).
  # Without any, nothing of the run may be left.
  def self.check_leaks(zones, regs0, live0)
    regs = registries - regs0
    blocks = Sim.live - live0
    left = Typelib::MemoryZone.table_size - zones
    trace("left: #{left} zones, #{blocks} blocks, #{regs} registries")
    Sim.count("registries left #{regs}")
    if regs == 0
      Sim.count('runs checked for leaks')
      Sim.bad('leak', "#{blocks} blocks left once everything was collected: #{Sim.live_report}") if blocks > 0
    end
  end
  def self.c36
    zones = Typelib::MemoryZone.table_size
    live0 = Sim.live
    regs0 = registries
    meta = run_world
    overwrite(200)
    scrub
    log('forget everything')
    gc(0)
    if meta
      v = meta[0].get('key')
      bad('metadata', "reads #{v.inspect} after its registry was forgotten, expected #{meta[1].inspect}") unless v == [meta[1]]
      meta = nil
    end
    overwrite(200)
    scrub
    gc(0)
    gc(0)
    check_leaks(zones, regs0, live0)
  end
  def self.c37
    run_world(true)
    overwrite(200)
    scrub
    log('forget everything')
    gc(0)
  end
end
