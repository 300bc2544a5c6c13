package contracts

const (
	Sepolia = "11155111"
	Goerli  = "5"
)

type ENSConfig struct {
	ChainID               string
	ENSRegistryAddress    string
	FDSRegistrarAddress   string
	PublicResolverAddress string
	ProviderDomain        string
	ProviderBackend       string
}

type SubscriptionConfig struct {
	RPC            string
	DataHubAddress string
}

func TestnetConfig(chainId string) (*ENSConfig, *SubscriptionConfig) {
	return &ENSConfig{ChainID: chainId, ProviderDomain: "fds"}, &SubscriptionConfig{}
}
func PlayConfig() (*ENSConfig, *SubscriptionConfig) { return &ENSConfig{}, &SubscriptionConfig{} }
