// Console simulator: what the program's progress observer shows for any
// history of notifications, without plotting maps that large.
//
// Fork server: lines "n <size> <count>" (notify), "r" (reset),
// "p <size> <count>" (that many elements plotted through a notifier),
// "d <size>" (done, through the notifier), ending in "run"; the answer is
// "L <exit> <signal> <bytes>\n", then per line "<bytes> <new console text>\n".
#include "ProgressConsole.h"
#include <marc/Notifier.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

int main()
{
    struct Step { char op; std::size_t size, count; };
    std::vector<Step> todo;
    char line[256];
    while (fgets(line, sizeof line, stdin)) {
        Step s{0, 0, 0};
        if (sscanf(line, "%c %zu %zu", &s.op, &s.size, &s.count) >= 1 && strcmp(line, "run\n") != 0) { todo.push_back(s); continue; }
        int p[2];
        if (pipe(p) != 0) return 1;
        pid_t const pid = fork();
        if (pid == 0) {
            close(p[0]);
            if (!freopen("/dev/null", "w", stderr)) _exit(98);
            rlimit rl{60, 60};
            setrlimit(RLIMIT_CPU, &rl);
            std::ostringstream os;
            std::cout.rdbuf(os.rdbuf());
            auto own = std::make_unique<MaRC::Progress::Console>();
            auto & c = *own;
            MaRC::Progress::Notifier n;
            n.subscribe(std::move(own));
            for (auto const & t : todo) {
                os.str("");
                switch (t.op) {
                case 'n': c.notify(t.size, t.count); break;
                case 'r': c.reset(); break;
                case 'p': for (std::size_t k = 0; k < t.count; ++k) n.notify_plotted(t.size); break;
                case 'd': n.notify_done(t.size); break;
                }
                std::string x = os.str();
                if (x.size() > 100000) x.resize(100000);
                x = std::to_string(x.size()) + " " + x + "\n";
                for (std::size_t o = 0; o < x.size(); ) { ssize_t m = write(p[1], x.data() + o, x.size() - o); if (m <= 0) _exit(98); o += (std::size_t) m; }
            }
            _exit(0);
        }
        close(p[1]);
        std::string out;
        char buf[65536];
        ssize_t n;
        while ((n = read(p[0], buf, sizeof buf)) > 0) out.append(buf, (std::size_t) n);
        close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        printf("L %d %d %zu\n", WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0, out.size());
        fwrite(out.data(), 1, out.size(), stdout);
        fflush(stdout);
        todo.clear();
    }
}
