package node/log
prop C28

ghost written : Int
ghost record : (Array Int Str)
ghost caller : (Array Int Int)
ghost logout : Iface
ghost logprefix : Str
ghost logflags : Int
ghost flagvar : (Array Str Int)

define wrote(l, text) = written(l.Logger) == old(written(l.Logger)) + 1 && sel(record(l.Logger), old(written(l.Logger))) == text && sel(caller(l.Logger), old(written(l.Logger))) == 1
define silent(l) = written(l.Logger) == old(written(l.Logger)) && record(l.Logger) == old(record(l.Logger))

func NewLogger(c) (l)
  ensures pins: is(l, *logger) && unboxed(l, *logger).pins == ite(c.Debug, c.Pins, 0)
  ensures output: imp(c.Output != nil, logout(unboxed(l, *logger).Logger) == c.Output)
  ensures prefix: logprefix(unboxed(l, *logger).Logger) == c.Prefix
  ensures flags: logflags(unboxed(l, *logger).Logger) == 18

func NewConfig() (c)
  ensures defaults: c.Prefix == "" && !c.Debug && c.Pins == 18446744073709551615 && c.Output == nil

func (*Config).FromFlags(c)
  requires c != nil
  ensures prefix: sel(flagvar(0), "log-prefix") == addr(c.Prefix)
  ensures debug: sel(flagvar(0), "debug") == addr(c.Debug)
  ensures pins: sel(flagvar(0), "debug-pins") == addr(c.Pins)
  ensures unchanged: c.Prefix == old(c.Prefix) && c.Debug == old(c.Debug) && c.Pins == old(c.Pins)

func (*logger).Pins(l) (p)
  requires l != nil
  modifies nothing
  ensures pins: p == l.pins

func (*logger).Debug(l, pin, args) ()
  requires l != nil
  modifies written(l.Logger), record(l.Logger), caller(l.Logger)
  ensures shown: imp(l.pins & pin != 0, wrote(l, fmt.Sprint(cons("[DBG] ", args))))
  ensures hidden: imp(l.pins & pin == 0, silent(l))

func (*logger).Debugln(l, pin, args) ()
  requires l != nil
  modifies written(l.Logger), record(l.Logger), caller(l.Logger)
  ensures shown: imp(l.pins & pin != 0, wrote(l, fmt.Sprintln(cons("[DBG]", args))))
  ensures hidden: imp(l.pins & pin == 0, silent(l))

func (*logger).Debugf(l, pin, format, args) ()
  requires l != nil
  modifies written(l.Logger), record(l.Logger), caller(l.Logger)
  // either is the same text: there is nothing to format in the prefix
  ensures shown: imp(l.pins & pin != 0, wrote(l, fmt.Sprintf("[DBG] " + format, args)) || wrote(l, "[DBG] " + fmt.Sprintf(format, args)))
  ensures hidden: imp(l.pins & pin == 0, silent(l))

func (*logger).Error(l, err, args) ()
  requires l != nil
  modifies written(l.Logger), record(l.Logger), caller(l.Logger)
  ensures shown: wrote(l, fmt.Sprint(cons("[ERR] ", fmt.Sprintf("err=%s ", list(err)), args)))

func (*logger).Errorln(l, err, args) ()
  requires l != nil
  modifies written(l.Logger), record(l.Logger), caller(l.Logger)
  ensures shown: wrote(l, fmt.Sprintln(cons("[ERR]", fmt.Sprintf("err=%s", list(err)), args)))

func (*logger).Errorf(l, err, format, args) ()
  requires l != nil
  modifies written(l.Logger), record(l.Logger), caller(l.Logger)
  ensures shown: wrote(l, fmt.Sprintf("[ERR] err=%s ", list(err)) + fmt.Sprintf(format, args))
