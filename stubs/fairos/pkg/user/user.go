package user

type Info struct{ sessionId string }

func NewInfo(s string) *Info         { return &Info{s} }
func (i *Info) GetSessionId() string { return i.sessionId }

type LoginResponse struct {
	Address     string `json:"address"`
	NameHash    string `json:"nameHash"`
	PublicKey   string `json:"publicKey"`
	UserInfo    *Info  `json:"userInfo"`
	AccessToken string `json:"accessToken"`
}
