package kit

import (
	"context"
	"net"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	_ "github.com/gernest/requiemdb/internal/compress"
	"github.com/gernest/requiemdb/internal/service"
	collector_logs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/test/bufconn"
)

// Remote is a client of a service.
type Remote struct {
	v1.RQClient
	Metrics collector_metrics.MetricsServiceClient
	Logs    collector_logs.LogsServiceClient
	Trace   collector_trace.TraceServiceClient
	conn    *grpc.ClientConn
	srv     *grpc.Server
}

// Serve a service the way cmd/rq does and connect to it.
func Serve(s *service.Service, opts ...grpc.CallOption) (*Remote, error) {
	l := bufconn.Listen(1 << 20)
	srv := grpc.NewServer()
	v1.RegisterRQServer(srv, s)
	collector_metrics.RegisterMetricsServiceServer(srv, s.Metrics())
	collector_logs.RegisterLogsServiceServer(srv, s.Logs())
	collector_trace.RegisterTraceServiceServer(srv, s.Trace())
	go srv.Serve(l)
	conn, err := grpc.NewClient("passthrough:///bufconn", grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) { return l.DialContext(ctx) }),
		grpc.WithDefaultCallOptions(opts...))
	if err != nil {
		srv.Stop()
		return nil, err
	}
	r := connected(conn)
	r.srv = srv
	return r, nil
}

// Dial connects to an address.
func Dial(addr string, opts ...grpc.CallOption) (*Remote, error) {
	conn, err := grpc.NewClient(addr, grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithDefaultCallOptions(opts...))
	if err != nil {
		return nil, err
	}
	return connected(conn), nil
}

func connected(conn *grpc.ClientConn) *Remote {
	return &Remote{RQClient: v1.NewRQClient(conn), conn: conn,
		Metrics: collector_metrics.NewMetricsServiceClient(conn),
		Logs:    collector_logs.NewLogsServiceClient(conn),
		Trace:   collector_trace.NewTraceServiceClient(conn)}
}

// Export sends data.
func (r *Remote) Export(ctx context.Context, d *v1.Data) (err error) {
	switch e := d.Data.(type) {
	case *v1.Data_Metrics:
		_, err = r.Metrics.Export(ctx, &collector_metrics.ExportMetricsServiceRequest{ResourceMetrics: e.Metrics.ResourceMetrics})
	case *v1.Data_Logs:
		_, err = r.Logs.Export(ctx, &collector_logs.ExportLogsServiceRequest{ResourceLogs: e.Logs.ResourceLogs})
	case *v1.Data_Traces:
		_, err = r.Trace.Export(ctx, &collector_trace.ExportTraceServiceRequest{ResourceSpans: e.Traces.ResourceSpans})
	}
	return
}

// Close the connection, and the server if it is ours.
func (r *Remote) Close() {
	r.conn.Close()
	if r.srv != nil {
		r.srv.Stop()
	}
}
