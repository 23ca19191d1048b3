package kit

import (
	"context"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/service"
	collector_logs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
)

// Service opens the service on the parts of a node that has no store.
func (n *Node) Service(ctx context.Context) (*service.Service, error) {
	return service.NewService(ctx, n.DB, n.Tr, n.Seq, n.Idx, func() time.Time { return n.Now }, "", 0)
}

// Export sends data the way a client does.
func Export(ctx context.Context, s *service.Service, d *v1.Data) (err error) {
	switch e := d.Data.(type) {
	case *v1.Data_Metrics:
		_, err = s.Metrics().Export(ctx, &collector_metrics.ExportMetricsServiceRequest{ResourceMetrics: e.Metrics.ResourceMetrics})
	case *v1.Data_Logs:
		_, err = s.Logs().Export(ctx, &collector_logs.ExportLogsServiceRequest{ResourceLogs: e.Logs.ResourceLogs})
	case *v1.Data_Traces:
		_, err = s.Trace().Export(ctx, &collector_trace.ExportTraceServiceRequest{ResourceSpans: e.Traces.ResourceSpans})
	}
	return
}
