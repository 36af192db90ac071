package skyobject/registry
prop C20

func (Degree).Validate(d) (err)
  modifies nothing
  ensures range: iff(err == nil, 2 <= d && d <= 1024)

package skyobject
prop C20

define fits(c) = and(2 <= c.Degree && c.Degree <= 1024, c.RollAvgSamples >= 1, c.CacheMaxAmount >= 0, c.CacheMaxVolume >= 0,
  c.CachePolicy == LRU || c.CachePolicy == LFU, 0.5 <= c.CacheCleaning && c.CacheCleaning <= 0.9,
  real(c.CacheMaxItemSize) <= real(c.CacheMaxVolume) * (1.0 - c.CacheCleaning), c.MaxObjectSize >= 1024)

func (*Config).Validate(c) (err)
  requires c != nil
  modifies nothing
  ensures accepts: imp(fits(c), err == nil)
  ensures refuses: imp(err == nil, fits(c))

func NewConfig() (c)
  panics
  ensures fits: fits(c)
  ensures registries: c.CacheRegistries == CacheRegistries && c.MaxFillingParallel == MaxFillingParallel
  ensures rest: c.Degree == Degree && c.RollAvgSamples == RollAvgSamples && c.CacheMaxAmount == CacheMaxAmount && c.CacheMaxVolume == CacheMaxVolume && c.CachePolicy == LRU && c.CacheMaxItemSize == CacheMaxItemSize && c.MaxObjectSize == MaxObjectSize && !c.InMemoryDB && !c.CheckSizes && c.DB == nil && c.DBPath == ""

package node
prop C20

func (*Config).Validate(c) (err)
  requires c != nil
  modifies nothing
  ensures accepts: imp(c.Config == nil || fits(c.Config), err == nil)
  ensures refuses: imp(err == nil && c.Config != nil, fits(c.Config))

func NewConfig() (c)
  panics
  ensures valid: c.Config != nil && fits(c.Config)
  ensures node: c.MaxConnections == MaxConnections && c.MaxPendingConnections == MaxPendingConnections && c.MaxHeads == MaxHeads && c.MaxFillingTime == MaxFillingTime && c.RPC == RPCAddress && !c.Public
  ensures net: c.TCP.Listen == ListenTCP && c.UDP.Listen == ListenUDP && c.TCP.ResponseTimeout == ResponseTimeout && c.UDP.ResponseTimeout == ResponseTimeout && c.TCP.Pings == Pings
  ensures log: c.Logger.Prefix == Prefix

define flagis(name, a) = sel(flagvar(0), name) == a

func (*Config).FromFlags(c)
  requires c != nil
  modifies flagvar(all)
  ensures node: flagis("max-connections", addr(c.MaxConnections)) && flagis("max-filling-time", addr(c.MaxFillingTime)) && flagis("max-heads", addr(c.MaxHeads)) && flagis("rpc", addr(c.RPC)) && flagis("public", addr(c.Public))
  ensures tcp: flagis("tcp", addr(c.TCP.Listen)) && flagis("tcp-response-timeout", addr(c.TCP.ResponseTimeout)) && flagis("tcp-pings", addr(c.TCP.Pings))
  ensures udp: flagis("udp", addr(c.UDP.Listen)) && flagis("udp-response-timeout", addr(c.UDP.ResponseTimeout)) && flagis("udp-pings", addr(c.UDP.Pings))
  ensures log: flagis("log-prefix", addr(c.Logger.Prefix)) && flagis("debug", addr(c.Logger.Debug)) && flagis("debug-pins", addr(c.Logger.Pins))
  ensures container: imp(c.Config != nil, flagis("mem-db", addr(c.Config.InMemoryDB)) && flagis("data-dir", addr(c.Config.DataDir)) && flagis("db-path", addr(c.Config.DBPath)))
