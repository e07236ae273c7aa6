# A model of C++ headers: what they define, what the compiler reports about them, and what has to
# be imported.
module Sim
  class Headers
    HFile = Struct.new(:path, :sys, :includes, :lines, :id, :as_included, :broken, :encoding, :target) do
      def there? = broken != :gone
      def real = there? ? location : raise(Errno::ENOENT, path)
      # where it really is, if its path goes through a symbolic link
      def location = target || path
      def text = lines.map { |l| "#{l}\n" }.join
      def content(enc)
        case broken
        when :gone then raise Errno::ENOENT, path
        when :denied then raise Errno::EACCES, path
        when :io then raise Errno::EIO, path
        end
        (encoding == :latin1 ? text.encode('ISO-8859-1').b : text).dup.force_encoding(enc || 'utf-8')
      end
    end
    Ns = Struct.new(:name, :parent, :key)
    Field = Struct.new(:name, :type, :access, :bits, :off, :line, :doc)
    Base = Struct.new(:ent, :access, :virtual, :off)
    Ent = Struct.new(:kind, :name, :scope, :file, :line, :xline, :access, :key, :fields, :bases, :virtuals, :incomplete, :args,
                     :values, :esize, :esigned, :target, :cond, :size, :align, :dsize, :doc, :meta, :serial, :pod, :opaque, :tail, :variant) do
      def inspect = "#<#{kind} #{name}>"
      def tmpl? = !args.nil?
    end
    FUND = {
      'bool' => [1, '/bool', 'bool'], 'char' => [1, '/int8_t', 'char'], 'signed char' => [1, '/int8_t', 'signed char'], 'unsigned char' => [1, '/uint8_t', 'unsigned char'],
      'short int' => [2, '/int16_t', 'short'], 'short unsigned int' => [2, '/uint16_t', 'unsigned short'], 'int' => [4, '/int32_t', 'int'],
      'unsigned int' => [4, '/uint32_t', 'unsigned int'], 'long int' => [8, '/int64_t', 'long'], 'long unsigned int' => [8, '/uint64_t', 'unsigned long'],
      'long long int' => [8, '/int64_t', 'long long'], 'long long unsigned int' => [8, '/uint64_t', 'unsigned long long'],
      'float' => [4, '/float', 'float'], 'double' => [8, '/double', 'double'], 'wchar_t' => [4, '/int32_t', 'wchar_t'],
      'long double' => [16, nil, 'long double'], '__int128' => [16, nil, '__int128'], 'char16_t' => [2, nil, 'char16_t'], 'void' => [0, '/nil', 'void']
    }.freeze
    COMMON = ['bool', 'char', 'unsigned char', 'short int', 'short unsigned int', 'int', 'unsigned int', 'long int', 'long unsigned int', 'float', 'double'].freeze
    RARE = (FUND.keys - COMMON - ['void']).freeze

    attr_reader :files, :ents, :required, :features
    def draw(n) = Sim.draw(n)
    def pick(a) = a[draw(a.size)]
    def chance(a, b) = Sim.chance(a, b)

    # kinds: how unusual the headers may be (0..2)
    def initialize(nreq, nents, unusual: 2)
      @unusual = unusual
      @root = Ns.new('::', nil, nil)
      @std = Ns.new('std', @root)
      @spaces = [@root]
      @ents = []
      @serial = 0
      make_files(nreq)
      make_spaces
      nents.times { Sim.span { make_entity } }
      close_files
    end
    def rare(n) = @unusual > 0 && chance(1, n)
    def feature(f) = Sim.count("headers with #{f}")

    # ---- files ----------------------------------------------------------------------------------------
    def make_files(nreq)
      @files = []
      dirs = ['/src/pkg', '/src/other/include']
      if rare(12)
        dirs << pick(['/src/a=b', '/src/R&D', '/src/x:y', "/src/it's", '/src/with space'])
        feature('an unusual path')
      end
      n = nreq + draw(2)
      n.times do |i|
        sys = i < n - nreq
        f = HFile.new(sys ? "/simsys/include/s#{i}.h" : "#{pick(dirs)}/h#{i}.hpp", sys, [], [])
        f.lines << '#pragma once' unless rare(6)
        f.lines << '// made by Andr\u00e9'.gsub('\u00e9', "\u00e9") if rare(6)
        f.encoding = :latin1 if rare(10)
        if rare(8)
          f.target = f.path
          f.path = f.path.sub(%r{\A/\w+}, '/link')
          feature('a path through a symbolic link')
        end
        @files.each { |g| f.includes << g if chance(2, 3) }
        f.lines.concat(f.includes.map { |g| "#include <#{g.path}>" })
        f.lines << ''  if rare(4)
        f.as_included = rare(5) ? f.path.sub(%r{/([^/]+)$}, '/../' + File.basename(File.dirname(f.path)) + '/\1') : f.path
        @files << f
      end
      @required = @files.reject(&:sys)
    end
    def close_files
      @files.each do |f|
        f.lines << '// the end' if rare(3)
        f.lines << '' if rare(4)
      end
    end
    def visible(file) = ([file] + file.includes.flat_map { |g| visible(g) }).uniq
    def file(path)
      @by_path ||= @files.flat_map { |f| [[f.path, f], [f.location, f]] }.to_h
      @by_path[path] || @by_path[File.expand_path(path)]
    end

    def make_spaces
      draw(3).times do |i|
        # homonyms in different places are frequent
        @spaces << Ns.new(pick(%w{ns outer detail}), pick(@spaces))
        @spaces.pop if @spaces[0...-1].any? { |s| s.name == @spaces[-1].name && s.parent == @spaces[-1].parent }
      end
      @spaces << Ns.new(nil, pick(@spaces)) if rare(10)     # an anonymous namespace
      @spaces << Ns.new('__priv', @root) if rare(12)
    end

    # ---- entities -------------------------------------------------------------------------------------
    NAMES = %w{Foo Bar Pose Time Data State Joint Frame Image}
    def fresh_name(scope, base = nil)
      n = base || pick(NAMES)
      if base.nil? && rare(30)
        n = pick(['__Hidden', 'Frame0x01', 'Frame0x10', '_Under', 'vector', 'string', 'Reg0x0A', 'my_gccxml_workaround_x', 'x'])
        feature('an unusual name')
      end
      n = "#{n}#{@serial += 1}" if @ents.any? { |e| e.scope == scope && (e.name == n || e.name&.start_with?("#{n}<")) }
      n
    end
    def usable(file)    # entities that can be used in a file
      v = visible(file)
      @ents.find_all { |e| v.include?(e.file) }
    end
    def make_entity
      f = pick(@files)
      scope = pick(@spaces)
      access = nil
      if rare(5) && (outer = usable(f).find_all { |e| %i{rec union}.include?(e.kind) && e.file == f && !e.incomplete && (!e.access || e.access == 'public') && e.name }.then { |a| a.empty? ? nil : pick(a) })
        scope = outer
        access = chance(1, 4) ? pick(%w{private protected}) : 'public'
        feature('nested types')
      end
      e = case draw(10)
          when 0, 1, 2, 3, 4, 5 then make_record(f, scope)
          when 6 then make_enum(f, scope)
          when 7, 8 then make_typedef(f, scope)
          else make_union_or_opaque(f, scope)
          end
      e.access = access
      e.serial = @ents.size
      e.cond = scope.cond if scope.is_a?(Ent)
      if rare(15)
        e.cond = 'FEATURE'
        feature('a definition that depends on a macro')
      end
      write_lines(e)
      @ents << e
    end
    # what can be used as the type of a field in that file
    def type_expr(f, depth = 2, user: nil)
      u = usable(f).find_all { |e| e.kind != :typedef || depth > 0 }
      u = u.reject { |e| e.cond }
      k = draw(20)
      return [:ent, pick(u)] if k >= 10 && k < 15 && !u.empty?
      return [:fund, pick(COMMON)] if k < 10 || depth == 0
      case k
      when 15 then [:arr, value_type(f, depth - 1), rare(12) ? (feature('arrays without a dimension'); pick([nil, 0])) : 1 + draw(6)]
      when 16
        return [:vec, vec_elem(f, depth - 1)] unless user && rare(12)
        feature('records that contain vectors of themselves')
        [:vec, [:ent, user]]
      when 17 then [:str]
      when 18 then [:cv, value_type(f, depth - 1), pick(%w{c v cv})]
      else
        return [:fund, pick(COMMON)] unless @unusual > 0
        case draw(6)
        when 0, 1 then [:ptr, rare(5) ? [:fund, 'void'] : type_expr(f, depth - 1)]
        when 2 then [:fund, pick(RARE)]
        when 3 then [:ref, type_expr(f, depth - 1)]
        when 4 then [:ptr, [:fn]]
        else
          fwd = @ents.find_all { |e| e.kind == :rec && e.args.nil? && e.scope.is_a?(Ns) && !e.cond && visible(f).include?(e.file) }
          fwd << user if user
          fwd.empty? ? [:fund, 'int'] : (feature('pointers to records'); [:ptr, [:ent, pick(fwd)]])
        end
      end
    end
    # no references, and no incomplete types
    def value_type(f, depth, user: nil)
      t = type_expr(f, depth, user: user)
      complete?(t) ? t : [:fund, 'int']
    end
    def vec_elem(f, depth)
      t = strip(value_type(f, depth))
      t = [:fund, 'int'] if %i{arr fn ref}.include?(t[0]) || t == [:fund, 'bool'] && !rare(2) || t[0] == :ent && t[1].name.nil?
      feature('vectors of bool') if t == [:fund, 'bool']
      t
    end
    def strip(t)        # canonical type, without qualifiers
      case t[0]
      when :cv then strip(t[1])
      when :ent then t[1].kind == :typedef ? strip(t[1].target) : t
      else t
      end
    end
    def complete?(t)
      case t[0]
      when :ref then true
      when :fn then false
      when :fund then t[1] != 'void'
      when :ent
        e = t[1]
        case e.kind
        when :typedef then complete?(e.target)
        when :rec then !e.incomplete
        else true
        end
      when :arr then !t[2].nil? && complete?(t[1])
      when :cv then complete?(t[1])
      else true
      end
    end
    def make_record(f, scope)
      e = Ent.new(:rec, nil, scope, f)
      e.key = pick(%w{Struct Class})
      e.fields = []
      e.bases = []
      if rare(25)
        e.name = nil
        feature('anonymous records')
      else
        e.name = fresh_name(scope)
        if chance(1, 6)
          e.args = (1 + draw(2)).times.map { |i| i == 1 && chance(1, 2) ? pick([3, -1, 0]) : strip(value_type(f, 1)) }
          e.args.map! { |a| a.is_a?(Array) && !argument?(a) ? [:fund, 'int'] : a }
          e.name = close("#{e.name}<#{e.args.map { |a| a.is_a?(Array) ? printed(a) : a.to_s }.join(', ')}")
          feature('templates')
        end
      end
      if rare(20)
        e.incomplete = true
        feature('incomplete types')
        return e
      end
      e.virtuals = rare(20)
      feature('virtual methods') if e.virtuals
      if chance(1, 4)
        cand = usable(f).find_all { |b| b.kind == :rec && !b.incomplete && b.name && !b.cond }
        (1 + draw(2)).times do
          next if cand.empty?
          b = cand.delete_at(draw(cand.size))
          e.bases << Base.new(b, rare(6) ? pick(%w{private protected}) : 'public', rare(10))
        end
        if rare(20)
          e.bases << Base.new([:vec, [:fund, 'int']], 'public', false)
          feature('a container as base class')
        end
        feature('base classes') unless e.bases.empty?
        feature('virtual base classes') if e.bases.any?(&:virtual)
      end
      nf = rare(10) ? 0 : 1 + draw(4)
      names = %w{a b c data x y time value}
      nf.times do |i|
        last = i == nf - 1
        t = last && rare(15) ? [:arr, [:fund, 'char'], pick([nil, 0])] : value_type(f, 2, user: e.name && !e.args ? e : nil)
        t = [:fund, 'int'] if t == [:arr, t[1], nil] && !last
        fl = Field.new(names.delete_at(draw(names.size)), t, rare(30) ? pick(%w{private protected}) : 'public')
        if rare(20)
          fl.type = [:fund, pick(['int', 'unsigned int', 'unsigned char'])]
          fl.bits = 1 + draw(7)
          fl.name = nil if chance(1, 4)
          feature('bitfields')
        end
        e.fields << fl
      end
      layout(e)
      e
    end
    # plain names only (what becomes of arguments that are not represented is not specified)
    def argument?(t)
      case t[0]
      when :fund, :str then true
      when :ent then t[1].name && t[1].name !~ /<|workaround/ && t[1].kind != :union && named?(t[1]) && scope_chain(t[1]).none? { |s| s.name.include?('<') } && !uses_pointers?(t)
      when :vec then t[1][0] == :fund && COMMON.include?(t[1][1]) && t[1][1] != 'bool'
      end
    end
    def uses_pointers?(t)
      case t[0]
      when :ptr, :ref, :fn then true
      when :arr, :vec, :cv then uses_pointers?(t[1])
      when :ent
        e = t[1]
        case e.kind
        when :rec then
          return true if (@asking ||= []).include?(e)     # contains vectors of itself
          @asking.push(e)
          r = e.fields.any? { |f| uses_pointers?(f.type) } || e.bases.any? { |b| b.ent.is_a?(Ent) && uses_pointers?([:ent, b.ent]) } ||
                       (e.args || []).any? { |a| a.is_a?(Array) && uses_pointers?(a) }
          @asking.pop
          r
        when :typedef then uses_pointers?(e.target)
        else false
        end
      else false
      end
    end
    def make_enum(f, scope)
      e = Ent.new(:enum, rare(15) ? nil : fresh_name(scope), scope, f)
      e.esize = rare(4) ? pick([1, 2, 8]) : 4
      e.esigned = chance(1, 2)
      feature("enums of #{e.esize} bytes")
      v = 0
      e.values = (1 + draw(4)).times.map { |i| v = chance(1, 3) ? draw(100) - (e.esigned ? 20 : 0) : v + 1; ["#{(e.name || 'ANON').upcase}_#{e.file.path[/\d+/]}_#{@ents.size}_V#{i}", v] }
      if rare(20)
        e.values = []
        feature('empty enums')
      elsif rare(20) && e.esize >= 4
        e.values[-1][1] = e.esize == 8 ? pick([1 << 40, (1 << 62) + 3]) : 0xffffffff
        e.values[-1][1] = 1 << 31 if e.esize == 4
        feature('enum values beyond the range of int')
        e.esigned = false
      end
      e.size = e.align = e.esize
      e
    end
    def make_typedef(f, scope)
      e = Ent.new(:typedef, rare(30) ? "__hidden_t#{@serial += 1}" : fresh_name(scope, chance(1, 3) ? pick(NAMES) : "#{pick(NAMES).downcase}_t"), scope, f)
      e.target = type_expr(f, 2)
      e.target = [:fund, 'int'] if %i{ref fn}.include?(e.target[0])
      e
    end
    def make_union_or_opaque(f, scope)
      if @unusual > 0 && chance(1, 2)
        feature('unions')
        e = Ent.new(:union, fresh_name(scope), scope, f)
        e.fields = [Field.new('i', [:fund, 'int'], 'public'), Field.new('d', [:fund, 'double'], 'public')]
        e.size = e.align = 8
        e.fields.each { |x| x.off = 0 }
        return e
      end
      e = make_record(f, scope)
      # opaque: known by name only
      e.opaque = true if e.name && e.name !~ /workaround/ && scope_chain(e).none? { |s| s.name.nil? || s.name.include?("workaround") } && !e.virtuals && chance(1, 2)
      feature('opaque types') if e.opaque
      e
    end

    # ---- layout (the rules of the Itanium ABI that matter here) --------------------------------------------
    def size_align(t)
      case t[0]
      when :fund then s = FUND[t[1]][0]; [s, [s, 1].max]
      when :ent
        e = t[1]
        e.kind == :typedef ? size_align(e.target) : [e.size, e.align]
      when :ptr, :ref then [8, 8]
      when :arr then s, a = size_align(t[1]); [s * (t[2] || 0), a]
      when :cv then size_align(t[1])
      when :vec then strip(t[1]) == [:fund, 'bool'] ? [40, 8] : [24, 8]
      when :str then [32, 8]
      else [0, 1]
      end
    end
    def up(n, a) = (n + a - 1) / a * a
    def layout(e)
      off = 0
      al = 1
      empty_at = []
      e.pod = e.bases.empty? && !e.virtuals && e.fields.all? { |f| f.access == 'public' && f.type[0] != :ref }
      if e.virtuals || e.bases.any?(&:virtual)
        if e.bases.none? { |b| b.ent.is_a?(Ent) && dynamic?(b.ent) && !b.virtual }
          off = 8
          al = 8
        end
      end
      place = lambda do |b|
        s, a, d = b.ent.is_a?(Ent) ? [b.ent.size, b.ent.align, b.ent.pod ? b.ent.size : b.ent.dsize] : [24, 8, 24]
        if b.ent.is_a?(Ent) && empty_class?(b.ent)
          b.off = 0
        else
          b.off = up(off, a)
          off = b.off + d
        end
        al = [al, a].max
        s
      end
      e.bases.reject(&:virtual).each(&place)
      bit = nil
      e.fields.each do |f|
        s, a = size_align(f.type)
        if f.bits
          bit = off * 8 if bit.nil? || bit > off * 8 || bit < (off - 1) * 8
          bit = up(bit, s * 8) if bit / (s * 8) != (bit + f.bits - 1) / (s * 8)
          f.off = bit
          bit += f.bits
          off = up(bit, 8) / 8
        else
          o = up(off, a)
          f.off = o * 8
          off = o + s
          bit = nil
        end
        al = [al, a].max
      end
      e.bases.find_all(&:virtual).each(&place)
      e.dsize = [off, 1].max
      e.size = up([off, 1].max, al)
      e.align = al
    end
    def dynamic?(e) = e.virtuals || e.bases.any? { |b| b.virtual || b.ent.is_a?(Ent) && dynamic?(b.ent) }
    def empty_class?(e) = e.fields.none? { |f| f.name } && !dynamic?(e) && e.bases.all? { |b| b.ent.is_a?(Ent) && empty_class?(b.ent) }

    # ---- text -----------------------------------------------------------------------------------------
    def write_lines(e)
      l = e.file.lines
      l << 'extern int separator;' if chance(2, 3)
      if chance(1, 3)
        e.doc, text = documentation("what #{e.name} is")
        if chance(1, 4)
          e.meta = ['unit', "u#{e.serial}"]
          text.insert(-2, " * @meta unit u#{e.serial}  ") if text[-1] == ' */'
          text[-1] == ' */' ? e.doc += "\n @meta unit u#{e.serial}  " : e.meta = nil
        end
        l.concat(text)
        l << '' if chance(1, 4)
      end
      # what is there counts
      if e.kind == :typedef || e.incomplete
        l << "typedef something #{e.name};"
        e.line = e.xline = l.size
        return
      end
      l << "struct #{e.name}#{' {' if (style = draw(3)) == 0}"
      e.line = e.xline = l.size
      if style == 1
        l << '{'
        e.xline = l.size if chance(1, 2)
      elsif style == 2
        l << '  ' << ' {  '
        e.xline = l.size if chance(1, 2)
      end
      (e.fields || []).each do |f|
        if chance(1, 4)
          f.doc, text = documentation("the field #{f.name}")
          l.concat(text)
        end
        l << "  type #{f.name};"
        f.line = l.size
      end
      l << '};'
    end
    # [what is understood, lines]
    def documentation(what)
      case draw(4)
      when 0 then [" #{what}", ["// #{what}"]]
      when 1 then [" #{what}", ["/** #{what}", ' */']]
      when 2 then [" #{what}\n\n in detail", ["/** #{what}", ' *', ' * in detail', ' */']]
      else [" #{what}", ["/* #{what} */"]]
      end
    end
    # the documentation of what is defined at a line, from the rules: the block of comments above it,
    # whatever blank lines are in between, without decorations
    def doc_at(file, line)
      return if file.broken
      block = []
      i = line - 2
      while i >= 0
        l = file.lines[i]
        if l =~ /\A\s*\z/ then nil
        elsif l =~ %r{\A\s*(\*|//|/\*)} then block.unshift(l)
        else break
        end
        i -= 1
      end
      block = block.map { |x| x.strip.sub(%r{\A(/+\*+|/+|\*+/?)}, '') }
      block.shift while block[0] && block[0].strip.empty?
      block.pop while block[-1] && block[-1].strip.empty?
      return if block.empty?
      indent = block.reject { |x| x.strip.empty? }.map { |x| x[/\A\s*/].size }.min
      block = block.map { |x| x[indent..-1] || '' }
      block[-1] = block[-1].gsub(%r{\*+/}, '')
      block = block.map { |x| x.gsub("\u00e9", "\ufffd") } if file.encoding == :latin1
      block.join("\n")
    end

    # ---- names ------------------------------------------------------------------------------------------
    def scope_chain(e)
      r = []
      s = e.scope
      while s && s != @root
        r.unshift(s)
        s = s.is_a?(Ns) ? s.parent : s.scope
      end
      r
    end
    def cxx_name(e) = (scope_chain(e).map { |s| s.name || '(anonymous namespace)' } + [e.name]).join('::')
    # as the compiler prints it in names of templates
    def printed(t)
      case t[0]
      when :fund then FUND[t[1]][2]
      when :ent then t[1].kind == :typedef ? printed(t[1].target) : (t[1].name ? cxx_name(t[1]) : "(anonymous struct at #{t[1].file.path}:#{t[1].line})")
      when :ptr then "#{printed(t[1])} *"
      when :arr then "#{printed(t[1])}[#{t[2]}]"
      when :cv then "#{'const ' if t[2].include?('c')}#{'volatile ' if t[2].include?('v')}#{printed(t[1])}"
      when :vec then e = printed(t[1]); close("std::vector<#{e}, std::allocator<#{e}>")
      when :str then 'std::basic_string<char>'
      when :fn then 'void ()'
      else '?'
      end
    end
    def close(s) = s.end_with?('>') ? "#{s} >" : "#{s}>"
    def tl_scope(e) = scope_chain(e).map { |s| "/#{tl_base(s)}" }.join
    def tl_base(s)
      return s.name unless s.is_a?(Ent) && s.args
      "#{s.name[/\A[^<]+/]}<#{s.args.map { |a| a.is_a?(Array) ? tl(a, true) : a.to_s }.join(',')}>"
    end
    # the name of a type in Typelib; names_only: of types that have none, the one they would have
    def tl(t, names_only = false)
      case t[0]
      when :fund then FUND[t[1]][1] || "/#{FUND[t[1]][2]}"
      when :ent
        e = t[1]
        e.kind == :typedef ? tl(e.target, names_only) : "#{tl_scope(e)}/#{tl_base(e)}"
      when :ptr then "#{tl(t[1], names_only)}*"
      when :arr then "#{tl(t[1], names_only)}[#{t[2]}]"
      when :cv then tl(t[1], names_only)
      when :vec then "/std/vector<#{tl(t[1], names_only)}>"
      when :str then '/std/string'
      else '/nothing'
      end
    end

    # ---- what can be represented --------------------------------------------------------------------------
    def solve(macros)
      @macros = macros
      @rep = {}.compare_by_identity
      loop do
        n = @rep.size
        @ents.each { |e| @rep[e] = true if !@rep[e] && rule(e) }
        break if @rep.size == n
      end
    end
    def present?(e) = e.cond.nil? || @macros.include?(e.cond)
    def rep?(t)
      case t[0]
      when :fund then !FUND[t[1]][1].nil?
      when :ent
        if t[1].kind == :typedef
          named?(t[1]) && rep?(t[1].target) && (t[1].access || 'public') == 'public' && "#{tl_scope(t[1])}/#{tl_base(t[1])}" !~ /gccxml_workaround/
        else !!@rep[t[1]]
        end
      when :ptr then rep?(t[1]) && !tl(t[1]).end_with?(']', '>')
      when :arr then t[2] && t[2] > 0 && rep?(t[1])
      when :cv then rep?(t[1])
      when :vec then rep?(t[1]) && !(%i{ptr fn}.include?(t[1][0])) && t[1] != [:fund, 'bool']
      when :str then true
      else false
      end
    end
    def named?(e) = e.name && scope_chain(e).none? { |s| s.name.nil? || s.is_a?(Ent) && s.kind == :union }
    # the rules
    def rule(e)
      return false unless present?(e) && named?(e)
      return true if e.opaque
      return false if (e.access || 'public') != 'public'
      full = "#{tl_scope(e)}/#{tl_base(e)}"
      return false if full =~ /gccxml_workaround/
      case e.kind
      when :enum then full !~ %r{/__\w+$} && !e.values.empty? && e.values.all? { |_, v| v.between?(-(1 << 31), (1 << 31) - 1) }
      when :typedef then rep?(e.target)
      when :union then false
      when :rec
        return false if full =~ %r{/__\w+$} || e.incomplete || e.virtuals
        return false unless e.bases.all? { |b| b.ent.is_a?(Ent) && (empty?(b.ent) || @rep[b.ent] && !b.ent.opaque && !b.virtual && b.access == 'public') }
        return false if empty?(e)
        return false unless e.fields.all? { |f| f.access == 'public' && !f.bits && f.name && rep?(f.type) }
        names = flat(e).map(&:first)
        names.uniq.size == names.size
      end
    end
    # has nothing to represent
    def empty?(e)
      e.kind == :rec && !e.incomplete && !e.virtuals && named?(e) && !e.opaque && (e.access || 'public') == 'public' && e.fields.empty? &&
        "#{tl_scope(e)}/#{tl_base(e)}" !~ %r{gccxml_workaround|/__\w+$} && e.bases.all? { |b| b.ent.is_a?(Ent) && empty?(b.ent) }
    end
    def flat(e)
      e.bases.reject { |b| !b.ent.is_a?(Ent) || empty?(b.ent) }.flat_map { |b| flat(b.ent).map { |n, t, o, d| [n, t, o + b.off, d] } } +
        e.fields.map { |f| [f.name, f.type, f.off / 8, [e, f]] }
    end

    # ---- what the compiler reports ------------------------------------------------------------------------
    ESC = { '&' => '&amp;', '<' => '&lt;', '>' => '&gt;', '"' => '&quot;', "'" => '&apos;' }.freeze
    def esc(s) = s.to_s.gsub(/[&<>"']/) { |c| ESC[c] }
    # variant: an entity whose definition differs in this run of the compiler
    def report(main, macros, kind: :castxml, variant: nil)
      Report.new(self, main, macros, kind, variant).to_s
    end
    def root = @root
    def std = @std

    class Report
      def initialize(model, main, macros, kind, variant)
        @m = model
        @kind = kind
        @variant = variant
        @ids = {}
        @nodes = []
        files = model.visible(main)
        @ents = model.ents.find_all { |e| files.include?(e.file) && (e.cond.nil? || macros.include?(e.cond)) }
        @files = files
        @n = Sim.draw(1000)
        @stride = [1, 3, 7][Sim.draw(3)]
        space(model.root)
        @ents.each { |e| entity(e) }
        noise if Sim.chance(1, 4)
        @strings and string_types
      end
      def id = "_#{@n += @stride}"
      def esc(s) = @m.esc(s)
      def node(text) = @nodes << text
      def fid(f) = "f#{@m.files.index(f) + 1}"
      def loc(f, line) = %(location="#{fid(f)}:#{line}" file="#{fid(f)}" line="#{line}")

      def space(s)
        @ids[s] ||= begin
          i = id
          ctx = s.parent ? %( context="#{space(s.parent)}") : ''
          node(%(  <Namespace id="#{i}"#{%( name="#{esc(s.name)}") if s.name}#{ctx} members=""/>))
          i
        end
      end
      def context(s) = s.is_a?(Headers::Ns) ? space(s) : entity(s)
      def type(t)
        t = [:fund, 'int'] if t[0] == :ent && !@ents.include?(t[1])
        return entity(t[1]) if t[0] == :ent
        key = key_of(t)
        return @ids[key] if @ids[key]
        case t[0]
        when :cv
          b = type(t[1])
          i = @ids[key] = "#{b}#{t[2]}"
          node(%(  <CvQualifiedType id="#{i}" type="#{b}"#{' const="1"' if t[2].include?('c')}#{' volatile="1"' if t[2].include?('v')}/>))
          return i
        when :str
          @strings = true
          string_types
          return @ids[key]
        end
        i = @ids[key] = id
        case t[0]
        when :fund
          s = Headers::FUND[t[1]][0] * 8
          node(%(  <FundamentalType id="#{i}" name="#{t[1]}" size="#{s}" align="#{[s, 8].max}"/>))
        when :ptr then node(%(  <PointerType id="#{i}" type="#{type(t[1])}" size="64" align="64"/>))
        when :ref then node(%(  <ReferenceType id="#{i}" type="#{type(t[1])}" size="64" align="64"/>))
        when :fn then node(%(  <FunctionType id="#{i}" returns="#{type([:fund, 'void'])}"/>))
        when :arr
          max = t[2].nil? ? '' : "#{t[2] - 1}#{'u' if @kind == :gccxml && t[2] > 0}"
          node(%(  <ArrayType id="#{i}" min="0" max="#{max}" type="#{type(t[1])}"/>))
        when :vec
          e = @m.printed(t[1])
          type(t[1])
          sz = t[1] == [:fund, 'bool'] ? 320 : 192
          a = "#{i}_alloc"
          node(%(  <Class id="#{i}" name="#{esc(@m.close("vector<#{e}, #{@m.close("std::allocator<#{e}")}"))}" context="#{space(@m.std)}" location="f0:50" file="f0" line="50" members="#{a}" bases="protected:#{a}b" size="#{sz}" align="64">\n    <Base type="#{a}b" access="protected" virtual="0" offset="0"/>\n  </Class>))
          node(%(  <Struct id="#{a}b" name="#{esc(@m.close("_Vector_base<#{e}, #{@m.close("std::allocator<#{e}")}"))}" context="#{space(@m.std)}" location="f0:20" file="f0" line="20" members="" size="192" align="64"/>))
          node(%(  <Typedef id="#{a}" name="value_type" type="#{type(t[1])}" context="#{i}" access="public" location="f0:60" file="f0" line="60"/>))
        end
        i
      end
      def key_of(t)
        t.map { |x| x.is_a?(Array) ? key_of(x) : x.is_a?(Headers::Ent) ? x.object_id : x }
      end
      def string_types
        return if @ids[[:str]]
        i = @ids[[:str]] = id
        c = id
        node(%(  <Typedef id="#{i}" name="string" type="#{c}" context="#{space(@m.std)}" location="f0:70" file="f0" line="70"/>))
        abi = @ids[:cxx11] ||= begin
          x = id
          node(%(  <Namespace id="#{x}" name="__cxx11" context="#{space(@m.std)}" members="#{c}" inline="1"/>))
          x
        end
        node(%(  <Class id="#{c}" name="#{esc('basic_string<char, std::char_traits<char>, std::allocator<char> >')}" context="#{abi}" location="f0:90" file="f0" line="90" members="" size="256" align="64"/>))
      end
      def entity(e)
        return @ids[e.object_id] if @ids[e.object_id]
        i = @ids[e.object_id] = id
        ctx = context(e.scope)
        name = %( name="#{esc(e.name)}") if e.name || Sim.chance(1, 2)
        acc = e.access ? %( access="#{e.access}") : ''
        case e.kind
        when :rec
          (e.args || []).each { |a| type(a) if a.is_a?(Array) }
          if e.incomplete
            node(%(  <#{e.key} id="#{i}"#{name} context="#{ctx}"#{acc} #{loc(e.file, e.xline)} incomplete="1"/>))
            return i
          end
          members = e.fields.map { id }
          extra = members.dup
          meth = id
          extra << meth
          size = e.size
          size += 8 if @variant == e
          attrs = %( id="#{i}"#{name} context="#{ctx}"#{acc} #{loc(e.file, e.xline)} members="#{extra.join(' ')}" size="#{size * 8}" align="#{e.align * 8}")
          if e.bases.empty?
            node(%(  <#{e.key}#{attrs}/>))
          else
            bases = e.bases.map do |b|
              t = b.ent.is_a?(Headers::Ent) ? [:ent, b.ent] : b.ent
              %(    <Base type="#{type(t)}" access="#{b.access}" virtual="#{b.virtual ? 1 : 0}"#{%( offset="#{b.off}") unless b.virtual}/>)
            end
            node(%(  <#{e.key}#{attrs}>\n#{bases.join("\n")}\n  </#{e.key}>))
          end
          e.fields.zip(members) do |f, m|
            n = f.name ? %( name="#{f.name}") : ' name=""'
            node(%(  <Field id="#{m}"#{n} type="#{type(f.type)}"#{%( bits="#{f.bits}") if f.bits} context="#{i}" access="#{f.access}" #{loc(e.file, f.line)} offset="#{f.off}"/>))
          end
          short = (e.name || '')[/\A[^<]*/]
          v = e.virtuals ? ' virtual="1"' : ''
          node(Sim.chance(1, 2) ? %(  <Destructor id="#{meth}" name="#{short}" context="#{i}" access="public" #{loc(e.file, e.line)} inline="1" artificial="1"#{v}/>) :
            %(  <Method id="#{meth}" name="get" returns="#{type([:fund, 'int'])}" context="#{i}" access="public" #{loc(e.file, e.line)}#{v} mangled="_ZN#{short}">\n    <Argument name="x" type="#{type([:fund, 'int'])}" #{loc(e.file, e.line)} default="&quot;&lt;a=b&gt;&quot;"/>\n  </Method>))
        when :enum
          vals = e.values.map { |n, v| %(    <EnumValue name="#{n}" init="#{v}"/>\n) }.join
          node(%(  <Enumeration id="#{i}"#{name} type="#{type([:fund, 'int'])}" context="#{ctx}"#{acc} #{loc(e.file, e.xline)} size="#{e.esize * 8}" align="#{e.esize * 8}">\n#{vals}  </Enumeration>))
        when :typedef
          node(%(  <Typedef id="#{i}"#{name} type="#{type(e.target)}" context="#{ctx}"#{acc} #{loc(e.file, e.xline)}/>))
        when :union
          ms = e.fields.map { id }
          node(%(  <Union id="#{i}"#{name} context="#{ctx}"#{acc} #{loc(e.file, e.xline)} members="#{ms.join(' ')}" size="64" align="64"/>))
          e.fields.zip(ms) { |f, m| node(%(  <Field id="#{m}" name="#{f.name}" type="#{type(f.type)}" context="#{i}" access="public" #{loc(e.file, e.line)} offset="0"/>)) }
        end
        i
      end
      def noise
        r = space(@m.root)
        node(%(  <Variable id="#{id}" name="dut" type="#{type([:fund, 'int'])}" init="a &lt; b" context="#{r}" location="f0:3" file="f0" line="3" mangled="_Z3dut"/>))
        node(%(  <OperatorFunction id="#{id}" name="&lt;&lt;" returns="#{type([:fund, 'int'])}" context="#{r}" location="f0:4" file="f0" line="4"/>))
        node(%(  <Struct id="#{id}" name="__va_list_tag" context="#{r}" location="f0:0" file="f0" line="0" members="" size="192" align="64"/>))
        node(%(  <Unimplemented id="#{id}" kind="UsingShadow"/>))
      end
      def to_s
        order = @nodes
        if Sim.chance(1, 3)     # the order of the elements means nothing
          order = order.dup
          (order.size - 1).downto(1) { |i| j = Sim.draw(i + 1); order[i], order[j] = order[j], order[i] } if order.size < 60
        end
        head = @kind == :castxml_native ? '<CastXML format="1.1.0">' : %(<GCC_XML version="0.9.0" cvs_revision="1.139">)
        order = order.map { |x| x.gsub('&gt; &gt;', '&gt;&gt;') } if Sim.chance(1, 3)     # since C++11
        files = [%(  <File id="f0" name="#{esc('<builtin>')}"/>)] + @files.map { |f| %(  <File id="#{fid(f)}" name="#{esc(f.as_included)}"/>) }
        %(<?xml version="1.0"?>\n#{head}\n#{(order + files).join("\n")}\n</#{head[/\w+/]}>\n)
      end
    end

    # ---- what has to be imported ------------------------------------------------------------------------------
    Want = Struct.new(:name, :kind, :size, :body, :file, :line, :doc, :cxx, :bases, :fields, :meta)
    # [types by name, aliases by name] of what is defined in these files
    def wanted(files)
      types = {}
      aliases = {}
      @ents.each do |e|
        next unless files.include?(e.file) && @rep[e]
        if e.kind == :typedef
          n = "#{tl_scope(e)}/#{e.name}"
          t = tl(e.target)
          aliases[n] = t if n != t && !e.name.start_with?('__')
          next
        end
        w = Want.new(tl([:ent, e]), e.opaque ? :opaque : e.kind, e.size, nil, e.file, e.line, doc_at(e.file, e.file.broken ? e.xline : e.line), nil, [], {}, e.meta)
        w.line = e.xline if e.file.broken
        w.cxx = "::#{cxx_name(e)}"
        case w.kind
        when :enum then w.body = e.values.to_h
        when :rec
          fl = flat(e)
          w.body = fl.map { |n, t, o, _| [n, tl(t), o] }
          fl.each { |n, _, _, (owner, f)| w.fields[n] = [owner.file, f.line, doc_at(owner.file, f.line)] }
          w.bases = e.bases.reject { |b| empty?(b.ent) }.map { |b| tl([:ent, b.ent]) }
        end
        types[w.name] = w
      end
      [types, aliases]
    end
  end
end
