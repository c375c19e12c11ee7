package asynq

import (
	"context"
	"time"

	"github.com/hibiken/asynq/internal/base"
	actx "github.com/hibiken/asynq/internal/context"
)

// ZZTaskContext builds the context a running server gives a handler, so that
// the harness can deliver a task itself with a chosen retry count.
func ZZTaskContext(parent context.Context, id, queue string, retried, maxRetry int) (context.Context, context.CancelFunc) {
	return actx.New(parent, &base.TaskMessage{ID: id, Queue: queue, Retried: retried, Retry: maxRetry}, time.Now().Add(10*time.Minute))
}
