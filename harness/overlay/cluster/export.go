package cluster

import (
	"net"

	"k8s.io/client-go/rest"
)

// SRVForVerification makes a service discovery that asks the given functions.
func SRVForVerification(
	namespace, serviceName string,
	srv func(service, proto, name string) (string, []*net.SRV, error),
	ip func(host string) ([]string, error),
	hostname func() (string, error),
) *ServiceDiscoverySRV {
	return &ServiceDiscoverySRV{
		namespace: namespace, serviceName: serviceName,
		lookupSRVFn: srv, lookupIPFn: ip, lookupHostnameFn: hostname,
	}
}

// KubeForVerification sets where the kubernetes API is.
func (c *Cluster) KubeForVerification(f func() (*rest.Config, error)) { c.inClusterConfigFunc = f }
