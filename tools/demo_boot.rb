PROVIDED = %w{utilrb/object/address utilrb/logger utilrb/kernel/options utilrb/module/attr_predicate
    utilrb/module/const_defined_here_p facets/string/camelcase facets/string/snakecase
    backports/2.4.0/true_class/dup backports/2.4.0/false_class/dup backports/2.4.0/fixnum/dup
    backports/2.4.0/float/dup backports/2.4.0/nil_class/dup utilrb/hash/map_value flexmock/minitest pry}
module Kernel
    alias __sim_require require
    def require(name)
        return false if PROVIDED.include?(name)
        __sim_require(name)
    end
    private :require
    def self.validate_options(options, defaults)
        options = (options || {}).to_h
        defaults = defaults.to_h { |k, v| [k.to_sym, v] } if defaults.kind_of?(Hash)
        unknown = options.keys.map(&:to_sym) - defaults.keys
        raise ArgumentError, "unknown options #{unknown}" unless unknown.empty?
        defaults.merge(options.transform_keys(&:to_sym))
    end
end
class Object
    def address; object_id end
end
class Module
    def attr_predicate(name, writable = false)
        name = name.to_s
        base = name.chomp('?')
        define_method("#{base}?") { instance_variable_defined?("@#{base}") ? !!instance_variable_get("@#{base}") : false }
        define_method("#{base}=") { |v| instance_variable_set("@#{base}", v) } if writable
    end
    def const_defined_here?(name); const_defined?(name, false) end
end
class Logger
    DEBUG, INFO, WARN, ERROR, FATAL = 0, 1, 2, 3, 4
    def self.Root(*)
        Module.new do
            def debug(*); end
            def info(*); end
            def warn(*); end
            def error(*); end
            def fatal(*); end
        end
    end
    def self.Hierarchy; Root() end
end
class String
    def camelcase(*) = split('_').map { |w| w[0, 1].upcase + (w[1..-1] || '') }.join
    def snakecase = gsub(/([a-z\d])([A-Z])/, '\1_\2').downcase
end

class Module; def FlexMockStub; end; end
def flexmock(*a); Minitest::Test.instance_method(:skip); raise(Minitest::Skip, "fm"); end
module Minitest; end
class Hash; def map_value; r={}; each{|k,v| r[k]=yield(k,v)}; r; end; end
