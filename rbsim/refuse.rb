# C37: operations that have to be refused, and definitions of types.
module Sim
  class World
    # arguments of every kind that is wrong for every type
    JUNK = Class.new

    def op_refused
      live = @roots.find_all(&:obj)
      r = live.empty? ? nil : pick(live)
      k = draw(10)
      list =
        if k < 4 && @reg then refused_by_registry
        elsif k == 4 then refused_when_gone
        elsif k == 5 then refused_by_types
        elsif r then refused_by_value(r)
        end
      return unless list
      (1 + draw(5)).times do
        refuse(*pick(list))
        break if @partly
      end
      adopt(*@partly) if @partly
      @partly = nil
      check_all
    end
    def refuse(what, block)
      log("refused: #{what}")
      types = type_list
      begin
        block.call
        Sim.bad('not-refused', "#{what} is accepted")
      rescue Violation
        raise
      rescue StandardError => e
        Sim.trace("  #{e.class} #{e.message[0, 100]}")
      end
      Sim.count('operations refused')
      Sim.nontrivial
      # a refused merge may have added some of the types of its source
      if types && !(what.start_with?('a registry ') ? (types - type_list).empty? : type_list == types)
        Sim.bad('registry-changed', "#{what} changed the registry: #{(type_list - types).inspect} added, #{(types - type_list).inspect} removed")
      end
    end
    # numbers no symbol of an enum stands for
    def no_symbol(t) = pick((-3..160).to_a - t.symbols.values)
    def foreign
      o = Typelib::Registry.new
      o.create_numeric('/int32_t', 4, :sint)
    end
    def refused_by_registry
      t = pick(@types)
      n = t.name
      plain = !n.end_with?(']', '>')
      # giving a type one of its own names again is fine
      other = @types.find { |o| o.rb != t.rb }
      g = @reg
      [
        ['the type of an unknown name', -> { g.get('/nope') }],
        ['a type built from an unknown one', -> { g.build('/nope[3]') }],
        ["an array of #{n} with a dimension that is no number", -> { g.build("#{n}[x]") }],
        ["an array of #{n} of a negative dimension", -> { g.build("#{n}[-2]") }],
        ["an array of #{n} of a negative dimension", -> { g.create_array(t.rb, -1) }],
        ['an array of an unknown type', -> { g.create_array('/nope', 2) }],
        ["a second definition of #{n}", -> { g.create_compound(n) { |c| c.add('a', t.rb, 0) } }],
        ["a second definition of #{n}", -> { g.create_enum(n) { |e| e.add('A', 1) } }],
        ["a second definition of #{n}", -> { g.create_opaque(n, 5) }],
        ["a second definition of #{n}", -> { g.create_null(n) }],
        ["a second definition of #{n}", -> { g.create_numeric(n, 4, :uint) }],
        ['a compound of an invalid name', -> { g.create_compound('/bad name<') { |c| c.add('a', t.rb, 0) } }],
        ['a compound without a namespace', -> { g.create_compound('Bad') { |c| c.add('a', t.rb, 0) } }],
        ['a compound with a field of another registry', -> { g.create_compound('/New') { |c| c.add('a', t.rb, 0); c.add('b', foreign, 64) } }],
        ['a compound with an unknown field', -> { g.create_compound('/New') { |c| c.add('a', '/nope', 0) } }],
        ['a compound with a negative offset', -> { g.create_compound('/New') { |c| c.add('a', t.rb, -8) } }],
        ['a compound of a negative size', -> { g.create_compound('/New', -8) { |c| c.add('a', t.rb, 0) } }],
        (['a compound smaller than its fields', -> { g.create_compound('/New', t.size) { |c| c.add('a', t.rb, 1) } }] if t.size > 0),
        ['a compound with a field that is no type', -> { g.create_compound('/New') { |c| c.add('a', JUNK, 0) } }],
        ['a compound whose definition raises', -> { g.create_compound('/New') { |c| c.add('a', t.rb, 0); raise ArgumentError, 'by the program' } }],
        ['an empty enum', -> { g.create_enum('/New') { |e| } }],
        ['an enum with a symbol twice', -> { g.create_enum('/New') { |e| e.add('A', 1); e.add('A', 2) } }],
        ['an enum with a value that is no integer', -> { g.create_enum('/New') { |e| e.add('A', 1); e.add('B', 'x') } }],
        ['an enum with a value that is too large', -> { g.create_enum('/New') { |e| e.add('A', 1); e.add('B', 1 << 40) } }],
        ['a numeric of an invalid category', -> { g.create_numeric('/New', 4, :nope) }],
        ['a numeric of a negative size', -> { g.create_numeric('/New', -4, :sint) }],
        ['an opaque of a negative size', -> { g.create_opaque('/New', -4) }],
        ['an opaque of an invalid size', -> { g.create_opaque('/New', 'x') }],
        ['an unknown kind of container', -> { g.create_container('/nope', t.rb) }],
        ['a container of an unknown type', -> { g.create_container('/std/vector', '/nope') }],
        ['a container of a type of another registry', -> { g.create_container('/std/vector', foreign) }],
        ['a container of a negative size', -> { g.create_container('/std/vector', t.rb, -1) }],
        (["a registry with another #{n}", lambda {
          o = Typelib::Registry.new
          i = o.create_numeric('/A1', 4, :sint)
          o.create_compound('/A0') { |c| c.add('x', i, 0) }
          o.create_opaque(n, t.size + 1 + draw(8))
          o.create_compound('/zz') { |c| c.add('x', i, 0) }
          g.merge(o)
        }] if plain),
        (["a registry whose types use another #{n}", lambda {
          o = Typelib::Registry.new
          i = o.create_opaque(n, t.size + 1)
          o.create_compound('/A0') { |c| c.add('x', i, 0) }
          o.create_array(i, 3)
          o.create_container('/std/vector', i)
          g.merge(o)
        }] if plain),
        ['something that is no registry', -> { g.merge(JUNK.new) }],
        ['a file that does not exist', -> { g.import('/nonexistent/file.tlb') }],
        ['a file of an unknown kind', -> { g.import('/nonexistent/file.zzz') }],
        ['an unknown output format', -> { g.export('nope') }],
        (["an alias of the name of #{n}", -> { g.alias(n, other.name) }] if other),
        ['an alias of an unknown type', -> { g.alias('/New', '/nope') }],
        ['an alias of an invalid name', -> { g.alias('bad', n) }],
        ["removing #{n} as if it was an alias", -> { g.remove_alias(n) }],
        ['removing an unknown alias', -> { g.remove_alias('/nope') }],
        ['removing something that is no type', -> { g.remove(JUNK.new) }],
        ['removing a class that is no type', -> { g.remove(JUNK) }],
        ['removing a type of another registry', -> { g.remove(foreign) }],
        ['resizing an unknown type', -> { g.resize('/nope' => 10) }],
        ["resizing #{n} to a negative size", -> { g.resize(n => -1) }],
        ["resizing #{n} to something that is no size", -> { g.resize(n => 'x') }],
        ['the minimal registry of an unknown type', -> { g.minimal('/nope') }],
        ['the minimal registry of something that is no type', -> { g.minimal(JUNK.new) }],
        ['the dependencies of a type of another registry', -> { g.reverse_depends(foreign) }],
        ['the dependencies of something that is no type', -> { g.reverse_depends(JUNK) }],
        ['a damaged document', -> { Typelib::Registry.from_xml('<?xml version="1.0"?><typelib><numeric name="/X" category="uint" size="q"/></typelib>') }],
      ].compact
    end
    def refused_by_types
      t = pick(@types)
      m = gen(t)
      b = encode(t, m)
      list = [
        ["a #{t.name} in an object that holds no memory", -> { t.rb.wrap(JUNK.new) }],
        ["a #{t.name} in nil", -> { t.rb.wrap(nil) }],
        ["a #{t.name} at no address", -> { t.rb.from_address(nil) }],
        ["a #{t.name} in something that is no memory zone", -> { t.rb.from_memory_zone(JUNK.new) }],
        ["a #{t.name} made of some other object", -> { Typelib.from_ruby(JUNK.new, t.rb) }],
        ['metadata of a key that is no string', -> { t.rb.metadata.get(3) }],
        ['metadata that is no string', -> { t.rb.metadata.set('k', 4) }],
        ['a value of the base class', -> { Typelib::CompoundType.new }],
        ["a #{t.name} from nil", -> { t.rb.from_buffer(nil) }],
        ["a #{t.name} with unknown options", -> { t.rb.from_buffer(b, nope: 1) }],
      ]
      unless b.empty?
        list << ["a #{t.name} from a buffer that is too short", -> { t.rb.from_buffer(b[0...draw(b.size)], merge_skip_copy: false) }]
      end
      list << ["a #{t.name} from a buffer that is too long", -> { t.rb.from_buffer(b + "\0" * (1 + draw(9)), merge_skip_copy: false) }]
      case t.kind
      when :cmp
        list << ['the offset of an unknown field', -> { t.rb.offset_of('nope') }]
        list << ['the type of an unknown field', -> { t.rb['nope'] }]
        list << ['a compound with an unknown field', -> { t.rb.new('nope' => 1) }]
      when :enum
        list << ['the value of an unknown symbol', -> { t.rb.value_of('NOPE') }]
        list << ['the symbol of an unknown value', -> { t.rb.name_of(9999) }]
        n = no_symbol(t)
        list << ["#{n}, which stands for no symbol", -> { Typelib.from_ruby(n, t.rb) }]
        list << ['an unknown symbol', -> { Typelib.from_ruby(:NOPE, t.rb) }]
        list << ['an enum value that is too large', -> { Typelib.from_ruby(1 << 40, t.rb) }]
      when :arr
        list << ['an array of too few elements', -> { Typelib.from_ruby(m[0...-1].map { |e| ruby(t.elem, e) }, t.rb) }] unless converted?(t)
      end
      # arrays and templates have no pointers
      if @reg && !t.name.end_with?(']', '>')
        list << ["the target of a null pointer on #{t.name}", -> { @reg.build("#{t.name}*").zero.deference }]
      end
      list
    end
    def refused_by_value(r)
      path, t, obj = descend(r)
      m = at(r, path)[0]
      list = [
        ['a copy from something that is no value', -> { Typelib.copy(obj, JUNK.new) }],
        ['a copy to something that is no value', -> { Typelib.copy(JUNK.new, obj) }],
        ['a cast to something that is no type', -> { obj.cast(JUNK) }],
        ['a cast to nil', -> { obj.cast(nil) }],
        ['a buffer which is none', -> { obj.from_buffer(nil) }],
      ]
      list << ['invalidating a value of its own', -> { r.obj.invalidate }] if path.empty? && r.obj.__typelib_parent.nil?
      list << ['swapping containers', -> { obj.endian_swap }] if t.containers?
      b = encode(t, m)
      unless b.empty?
        list << ['loading a buffer that is too short', lambda {
          @partly = [r, path]
          obj.from_buffer(b[0...draw(b.size)], merge_skip_copy: false)
        }]
      end
      other = @roots.find { |o| o.obj && !o.t.rb.casts_to?(t.rb) && !t.rb.casts_to?(o.t.rb) && o.t.kind != t.kind }
      if other
        settle(other)
        list << ["a cast of #{t.name} to #{other.t.name}", -> { obj.cast(other.t.rb) }]
        list << ["a copy of #{other.t.name} to #{t.name}", -> { Typelib.copy(obj, other.obj) }]
        list << ["a comparison of #{t.name} with #{other.t.name}", -> { obj == other.obj }]
      end
      case t.kind
      when :num
        list << ['something that is no number', -> { obj.typelib_from_ruby(JUNK.new) }]
        list << ['a number that is too large', -> { obj.typelib_from_ruby(1 << 70) }] unless t.code =~ /[eE]/
      when :cmp
        f = pick(t.fields.keys)
        list << ['an unknown field', -> { obj.get('nope') }]
        list << ['an unknown field', -> { obj.raw_get('nope') }]
        list << ['an unknown field', -> { obj.set('nope', 1) }]
        list << ['an unknown field', -> { obj.raw_set('nope', 1) }]
        list << ['an unknown field', -> { obj.nope }]
        e = t.fields.keys.find { |k| t.fields[k].kind == :enum }
        if e
          n = no_symbol(t.fields[e])
          list << ["#{n}, which stands for no symbol", -> { obj.set(e, n) }]
          list << ['a symbol that does not exist', -> { obj.set(e, :NOPE) }]
          list << ['a symbol that does not exist', -> { obj.set(e, 'NOPE') }]
        end
        list << ["something that is no #{t.fields[f].name}", -> { obj.set(f, JUNK.new) }]
        list << ["something that is no #{t.fields[f].name}", -> { obj.send("#{f}=", JUNK.new) }] unless converted?(t.fields[f])
      when :arr
        list << ['an element behind the end', -> { obj[t.count + draw(3)] }]
        list << ['an element behind the end', -> { obj.raw_get(t.count + draw(3)) }]
        list << ['an element before the first', -> { obj[-1 - draw(2)] }]
        list << ['an element before the first', -> { obj.raw_get(-1) }]
        i = draw(t.count)
        list << ['elements that go past the end', -> { obj[i, t.count - i + 1 + draw(3)] }]
        2.times { list << ['elements that go past the end', -> { j = draw(t.count); obj.do_get(j, t.count - j + 1 + draw(j + 1)) }] } if obj.respond_to?(:do_get)
        list << ['setting an element behind the end', -> { obj[t.count] = ruby(t.elem, gen(t.elem)) }]
        list << ["something that is no #{t.elem.name}", -> { obj[0] = JUNK.new }]
      when :vec
        list << ['an element behind the end', -> { obj[m.size + draw(3)] }]
        list << ['an element behind the end', -> { obj.raw_get(m.size + draw(3)) }]
        list << ['an element before the first', -> { obj.raw_get(-1) }]
        list << ['an element before the first', -> { obj[-1 - m.size] }]
        list << ['setting an element behind the end', -> { obj[m.size] = ruby(t.elem, gen(t.elem)) }]
        list << ["adding something that is no #{t.elem.name}", -> { obj.push(JUNK.new) }]
        list << ["erasing something that is no #{t.elem.name}", -> { obj.erase(JUNK.new) }]
        list << ["something that is no #{t.elem.name}", -> { obj[0] = JUNK.new }]
      end
      list
    end
    # whatever is asked of an element that is gone is refused
    GONE = {
      'read' => :to_byte_array, 'converted' => :to_ruby, 'zeroed' => :zero!, 'pointed to' => :to_ptr, 'swapped' => :endian_swap,
      'swapped in place' => :endian_swap!, 'duplicated' => :dup, 'printed' => :to_csv, 'inspected' => :inspect,
      'made simple' => :to_simple_value, 'measured' => :marshalling_size, 'wrapped' => :to_memory_ptr, 'located' => :zone_address
    }
    def refused_when_gone
      t = @types.find_all { |x| x.kind == :vec && x.elem.size > 0 }
      return if t.empty?
      t = pick(t)
      e = t.elem
      v = t.rb.from_buffer(encode(t, [gen(e), gen(e)]), merge_skip_copy: false)
      gone = v.raw_get(draw(2))
      alive = e.rb.from_buffer(encode(e, gen(e)), merge_skip_copy: false)
      v.clear
      what, m = pick(GONE.to_a)
      list = [
        ["an element that is gone is #{what}", -> { gone.send(m) }],
        ['an element that is gone is added again', -> { v.push(gone) }],
        ['an element that is gone is erased', -> { v.erase(gone) }],
        ['an element that is gone is copied', -> { Typelib.copy(alive, gone) }],
        ['an element that is gone is overwritten', -> { Typelib.copy(gone, alive) }],
        ['an element that is gone is compared', -> { Typelib.compare(gone, alive) }],
        ['an element that is gone is compared', -> { alive == gone }],
        ['an element that is gone is cast', -> { gone.cast(e.rb) }],
        ['an element that is gone is loaded', -> { gone.from_buffer(encode(e, gen(e)), merge_skip_copy: false) }],
        ['an element that is gone is compared byte by byte', -> { gone.memory_eql?(alive) }],
      ]
      case e.kind
      when :cmp
        f = pick(e.fields.keys)
        list << ['a field of an element that is gone', -> { gone.raw_get(f) }]
        list << ['a field of an element that is gone', -> { gone.get(f) }]
        list << ['setting a field of an element that is gone', -> { gone.set(f, ruby(e.fields[f], gen(e.fields[f]))) }]
        list << ['the fields of an element that is gone', -> { gone.each_field { |*| } }]
      when :arr, :vec
        list << ['an element of one that is gone', -> { gone[0] }]
        list << ['the elements of one that is gone', -> { gone.each { |*| } }]
      end
      list
    end

    # ---- definitions --------------------------------------------------------------------------------
    # Types are defined, merged and loaded; one that fails is either there as it was asked for or not at all.
    def op_define
      return unless @reg
      i = @next += 1
      case draw(5)
      when 0
        fs = {}
        off = 0
        (1 + draw(3)).times { |k| f = pick(@types); fs["g#{k}"] = [f, off]; off += (f.size + 7) / 8 * 8 }
        log("define a compound /D#{i}")
        @defining = { "/D#{i}" => ->(t) { t.each_field.to_a.map { |n, ft| [n, ft.name, t.offset_of(n)] } == fs.map { |n, (ft, o)| [n, ft.name, o] } } }
        arm
        @reg.create_compound("/D#{i}") { |c| fs.each { |n, (f, o)| c.add(n, f.rb, o) } }
      when 1
        syms = (1 + draw(4)).times.to_h { |k| ["V#{k}", k * 3 - 1] }
        log("define an enum /D#{i}")
        @defining = { "/D#{i}" => ->(t) { t.keys == syms } }
        arm
        @reg.create_enum("/D#{i}") { |e| syms.each { |n, v| e.add(n, v) } }
      when 2
        o = Typelib::Registry.new
        n = o.create_numeric("/D#{i}", 4, :sint)
        o.create_compound("/D#{i}C") { |c| c.add('x', n, 0); c.add('y', o.create_array(n, 2), 8) }
        o.alias("/D#{i}Alias", "/D#{i}C")
        log("merge a registry with /D#{i}")
        @defining = { "/D#{i}" => ->(t) { t.size == 4 }, "/D#{i}C" => ->(t) { t.size == 16 && t['y'].name == "/D#{i}[2]" } }
        arm
        @reg.merge(o)
        Sim.bad('registry-changed', "alias /D#{i}Alias lost") unless @reg.include?("/D#{i}Alias")
      when 3
        log('a copy of the registry')
        arm
        o = @reg.dup
        before = type_list
        got = o.each.map { |t| "#{t.name} #{t.size}" unless t.name.end_with?('*', ']', '>') }.compact.sort
        Sim.bad('registry-changed', "the copy differs: #{(got - before).inspect} added, #{(before - got).inspect} missing") unless got == before
      else
        t = pick(@types)
        log("an alias /D#{i} of #{t.name}")
        arm
        @reg.alias("/D#{i}", t.name)
        Sim.bad('registry-changed', "alias /D#{i} names #{@reg.get("/D#{i}").name}") unless @reg.get("/D#{i}").name == t.rb.name
      end
      check_defined
    end
    def check_defined
      return unless @defining && @reg
      @defining.each do |n, ok|
        Sim.bad('registry-changed', "#{n} is not defined after it was") unless @reg.include?(n)
        Sim.bad('registry-changed', "#{n} is not what was defined") unless ok.call(@reg.get(n))
      end
      @defining = nil
    end
    # after a failure
    def check_undefined(types)
      new = type_list - types
      gone = types - type_list
      defined = (@defining || {}).keys
      there = defined.find_all { |n| @reg.include?(n) }
      there.each { |n| Sim.bad('registry-changed', "#{n}, whose definition failed, is not what was asked for") unless @defining[n].call(@reg.get(n)) }
      new = new.reject { |d| there.any? { |n| d.start_with?("#{n} ") } }
      unless new.empty? && gone.empty?
        Sim.bad('registry-changed', "a failed operation changed the registry: #{new.inspect} added, #{gone.inspect} removed")
      end
    ensure
      @defining = nil
    end
  end
end
