import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.Callable;
import java.util.concurrent.Semaphore;
import java.util.concurrent.TimeUnit;
import org.python.core.Py;
import org.python.core.PyException;
import org.python.core.PyFrame;
import org.python.core.PyObject;
import org.python.core.TraceFunction;

/** A thread that runs a Python callable and parks before its stop-th source
 *  line under root. (Trace functions written in Python run under a lock of the
 *  interpreter, so they could not park.) */
public class StepTask extends TraceFunction implements Runnable {
    private final String root;
    private final Callable<Object> fn;
    private final Semaphore go = new Semaphore(0), news = new Semaphore(0);
    public volatile int n = 0, stop = -1;
    public volatile boolean done, parked, started;
    public volatile Object result;
    public volatile Throwable error;
    public final List<Object[]> record;
    public final Thread thread;

    public StepTask(String root, Callable<Object> fn, boolean record) {
        this.root = root;
        this.fn = fn;
        this.record = record ? new ArrayList<Object[]>() : null;
        thread = new Thread(null, this, "step", 16 << 20);
        thread.setDaemon(true);
    }

    public void run() {
        Py.getThreadState().tracefunc = this;
        try {
            result = fn.call();
        } catch (Throwable t) {
            error = t;
        } finally {
            Py.getThreadState().tracefunc = null;
            done = true;
            news.release();
        }
    }

    public TraceFunction traceCall(PyFrame frame) {
        return frame.f_code.co_filename.startsWith(root) ? this : null;
    }

    public TraceFunction traceLine(PyFrame frame, int line) {
        n++;
        if (record != null)
            record.add(new Object[] {frame.f_code.co_filename, frame.f_code.co_firstlineno, line});
        if (n == stop) {
            parked = true;
            news.release();
            go.acquireUninterruptibly();
        }
        return this;
    }

    public TraceFunction traceReturn(PyFrame frame, PyObject ret) {
        return this;
    }

    public TraceFunction traceException(PyFrame frame, PyException exc) {
        return this;
    }

    public void resume(int stop) {
        this.stop = stop;
        if (!started) {
            started = true;
            thread.start();
        } else if (parked) {
            parked = false;
            go.release();
        }
    }

    /** true: parked or done; false: not within ms, or waiting for another thread */
    public boolean await(int ms) throws InterruptedException {
        long end = System.currentTimeMillis() + ms;
        int waiting = 0;
        while (!done) {
            if (news.tryAcquire(8, TimeUnit.MILLISECONDS))
                return true;
            Thread.State s = thread.getState();
            boolean w = s == Thread.State.BLOCKED || s == Thread.State.WAITING || s == Thread.State.TIMED_WAITING;
            waiting = w && !parked ? waiting + 1 : 0;
            if (waiting >= 4 || System.currentTimeMillis() > end)
                return done || news.tryAcquire();
        }
        return true;
    }
}
