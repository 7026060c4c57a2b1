/* Serves calls into the C interface through its own header, one request per line:
   bbbv R C cells... | laymine R C M X Y | poss R C M cells...
   Each answer ends with the number of releases with a wrong layout and of allocations left behind. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ms_toollib.h"
size_t vbad(void);
size_t vlive(void);
static struct Board read_board(size_t r, size_t c) {
    struct Board b = {malloc((r + 1) * sizeof(struct Row)), r};
    for (size_t i = 0; i < r; i++) {
        b.rows[i].cells = malloc((c + 1) * sizeof(int32_t));
        b.rows[i].n_column = c;
        for (size_t j = 0; j < c; j++)
            if (scanf("%d", &b.rows[i].cells[j]) != 1) exit(3);
    }
    return b;
}
static void drop_board(struct Board b) {
    for (size_t i = 0; i < b.n_row; i++) free(b.rows[i].cells);
    free(b.rows);
}
int main(void) {
    char op[16];
    while (scanf("%15s", op) == 1) {
        size_t r, c, m, x, y;
        size_t bad = vbad(), live = vlive();
        if (!strcmp(op, "bbbv")) {
            if (scanf("%zu %zu", &r, &c) != 2) return 3;
            struct Board b = read_board(r, c);
            printf("%zu", cal3BV(b));
            drop_board(b);
        } else if (!strcmp(op, "laymine")) {
            if (scanf("%zu %zu %zu %zu %zu", &r, &c, &m, &x, &y) != 5) return 3;
            struct Board b = laymine(r, c, m, x, y);
            printf("%zu", b.n_row);
            for (size_t i = 0; i < b.n_row; i++) {
                printf(" %zu", b.rows[i].n_column);
                for (size_t j = 0; j < b.rows[i].n_column; j++) printf(" %d", b.rows[i].cells[j]);
            }
            free_board(b);
        } else if (!strcmp(op, "poss")) {
            double mines;
            if (scanf("%zu %zu %lf", &r, &c, &mines) != 3) return 3;
            struct Board b = read_board(r, c);
            struct BoardPossReturn p = cal_possibility_onboard(b, mines);
            printf("%zu %zu %zu %zu", p.min_mine_num, p.mine_num, p.max_mine_num, p.board_poss.n_row);
            for (size_t i = 0; i < p.board_poss.n_row; i++) {
                printf(" %zu", p.board_poss.rows_poss[i].n_column);
                for (size_t j = 0; j < p.board_poss.rows_poss[i].n_column; j++) printf(" %.17g", p.board_poss.rows_poss[i].cells_poss[j]);
            }
            free_board_poss(p);
            drop_board(b);
        } else
            return 3;
        printf(" %zu %zu\n", vbad() - bad, vlive() - live);
        fflush(stdout);
    }
    return 0;
}
